---------------------------------- MODULE Rng ----------------------------------
(* tower::util::rng: whatever words a generator yields, a number asked for in a range
   lies in it and a fraction lies in [0, 1); if the words are evenly spread, so are
   the numbers (each of n values, or of n equal parts of [0, 1), gets the same share). *)
EXTENDS Common
CONSTANTS Cfgs, Ns, Words
VARIABLES s, ev
Off == [on |-> FALSE]
Emit(op, a, r, log) == ev' = Event(op, a, r, log, {})
Boot(c) == s' = [on |-> TRUE, cfg |-> c] /\ Emit("boot", <<c>>, Ok, <<>>)
Even(n) == [i \in 1..n |-> 1]
Range(n) == n > 0 /\ s' = s /\ Emit("range", <<n>>, <<"ok", Even(n)>>, <<>>)
Unit(n)  == n > 0 /\ s' = s /\ Emit("unit", <<n>>, <<"ok", Even(n)>>, <<>>)
\* the generator yields this one word only, or counts on from it
Word(w, n) == s' = s /\ Emit("word", <<w, n>>, <<"ok", TRUE, TRUE>>, <<>>)
Do(op, a) == \/ op = "range" /\ Range(a[1])
             \/ op = "unit" /\ Unit(a[1])
             \/ op = "word" /\ Word(a[1], a[2])
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ s.on /\ \E n \in Ns : Range(n) \/ Unit(n) \/ \E w \in Words : Word(w, n)
Inv == s.on => s.cfg.kind \in {"new", "default", "fixed", "own", "box"}
================================================================================
