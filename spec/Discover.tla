-------------------------------- MODULE Discover --------------------------------
(* tower::discover: any stream of changes is a discovery source, and ServiceList is
   the one that inserts a fixed list of services under their positions. *)
EXTENDS Common
CONSTANTS Cfgs, Items, MaxQ
VARIABLES s, ev
Off == [on |-> FALSE]
\* pos: services the list has yielded; q: what the stream will yield; over: it has ended
Start(c) == [on |-> TRUE, cfg |-> c, pos |-> 0, q |-> <<>>, wait |-> FALSE, over |-> FALSE, due |-> {}]
Emit(op, a, r, log) == ev' = Event(op, a, r, log, s'.due)
Boot(c) == s' = Start(c) /\ Emit("boot", <<c>>, Ok, <<>>)
Poll ==
  /\ ~s.over
  /\ IF s.cfg.kind = "list"
     THEN /\ s' = [s EXCEPT !.pos = Min(@ + 1, s.cfg.n), !.over = s.pos = s.cfg.n]
          /\ Emit("poll", <<>>, IF s.pos < s.cfg.n THEN <<"insert", s.pos, s.pos + 1>> ELSE <<"end">>, <<>>)
     ELSE IF s.q = <<>> THEN s' = [s EXCEPT !.wait = TRUE, !.due = {}] /\ Emit("poll", <<>>, Pend, <<>>)
     ELSE s' = [s EXCEPT !.q = Tail(@), !.over = Head(s.q) = <<"end">>, !.wait = FALSE, !.due = {}] /\ Emit("poll", <<>>, Head(s.q), <<>>)
Feed(x) ==
  /\ s.cfg.kind = "stream" /\ ~s.over /\ Len(s.q) < MaxQ /\ ~InSeq(<<"end">>, s.q)
  /\ s' = [s EXCEPT !.q = Append(@, x), !.due = IF s.wait THEN {H(1)} ELSE @, !.wait = FALSE]
  /\ Emit("feed", <<x>>, Ok, <<>>)
Do(op, a) == \/ op = "poll" /\ Poll
             \/ op = "feed" /\ Feed(a[1])
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ s.on /\ (Poll \/ \E x \in Items : Feed(x))
Inv == s.on => (s.wait => s.q = <<>>)
=================================================================================
