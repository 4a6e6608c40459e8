------------------------------- MODULE CallAll -------------------------------
(* tower::util::CallAll / CallAllUnordered: the requests of a stream, each called when
   the service is ready, the responses in the order of the requests or as they come. *)
EXTENDS Common
CONSTANTS NK, Cfgs, Modes, Rs
VARIABLES s, ev
KS == 1..NK
Off == [on |-> FALSE]
\* cfg.kind \in all, new (ordered), unord, conv (unordered)
Start(c) == [on |-> TRUE, cfg |-> c, n |-> 0, inp |-> <<>>, end |-> FALSE,
             polled |-> FALSE, eof |-> FALSE, cur |-> 0, q |-> <<>>,
             res |-> [k \in KS |-> "open"], mode |-> "ready", wait |-> "no", over |-> FALSE, due |-> {}]
Emit(op, a, r, log) == ev' = Event(op, a, r, log, s'.due)
Boot(c) == s' = Start(c) /\ Emit("boot", <<c>>, Ok, <<>>)
Ordered(t) == t.cfg.kind \in {"all", "new"}
Slot(k) == ((k - 1) % NK) + 1      \* requests are numbered through; their results are kept by slot
Done(t, k) == t.res[Slot(k)] # "open"
Deliverable(t) == IF t.q = <<>> THEN {}
                  ELSE IF Ordered(t) THEN (IF Done(t, Head(t.q)) THEN {Head(t.q)} ELSE {})
                  ELSE {k \in {t.q[i] : i \in 1..Len(t.q)} : Done(t, k)}
RECURSIVE Run(_, _)
\* all the ways the poll can end: [t, r, log]
Run(t, log) ==
  IF Deliverable(t) # {} THEN
    {[t |-> [t EXCEPT !.q = Without(t.q, k), !.res[Slot(k)] = "open", !.wait = "no"],
      r |-> IF t.res[Slot(k)] = "ok" THEN <<"ok", 1000 + k>> ELSE <<"err", "r7">>, log |-> log] : k \in Deliverable(t)}
  ELSE IF t.eof THEN
    {[t |-> [t EXCEPT !.wait = IF t.q = <<>> THEN "no" ELSE "q"], r |-> IF t.q = <<>> THEN <<"end">> ELSE Pend, log |-> log]}
  ELSE IF t.cur = 0 THEN
    IF t.inp # <<>> THEN Run([t EXCEPT !.cur = Head(t.inp), !.inp = Tail(@)], log)
    ELSE IF t.end THEN Run([t EXCEPT !.eof = TRUE], log)
    ELSE {[t |-> [t EXCEPT !.wait = "s"], r |-> Pend, log |-> log]}
  ELSE CASE t.mode = "err1" -> {[t |-> [t EXCEPT !.eof = TRUE, !.cur = 0, !.wait = "no"], r |-> <<"err", "e1">>, log |-> log]}
         [] t.mode = "pending" -> {[t |-> [t EXCEPT !.wait = "m"], r |-> Pend, log |-> log]}
         [] t.mode = "ready" -> Run([t EXCEPT !.cur = 0, !.q = Append(@, t.cur), !.res[Slot(t.cur)] = "open"],
                                    Append(log, <<"call", t.cur>>))
Poll ==
  /\ ~s.over
  /\ \E x \in Run([s EXCEPT !.due = @ \ {H(1)}, !.polled = TRUE], <<>>) :
       s' = x.t /\ Emit("poll", <<>>, x.r, x.log)
Busy(t) == {t.q[i] : i \in 1..Len(t.q)} \cup {t.inp[i] : i \in 1..Len(t.inp)} \cup {t.cur}
Feed ==
  /\ ~s.over /\ ~s.end /\ ~\E k \in Busy(s) : k # 0 /\ Slot(k) = Slot(s.n + 1)
  /\ s' = [s EXCEPT !.n = @ + 1, !.inp = Append(@, s.n + 1), !.due = IF s.wait = "s" THEN @ \cup {H(1)} ELSE @]
  /\ Emit("feed", <<s.n + 1>>, Ok, <<>>)
End ==
  /\ ~s.over /\ ~s.end
  /\ s' = [s EXCEPT !.end = TRUE, !.due = IF s.wait = "s" THEN @ \cup {H(1)} ELSE @]
  /\ Emit("end", <<>>, Ok, <<>>)
Finish(k, r) ==
  /\ ~s.over /\ InSeq(k, s.q) /\ ~Done(s, k)
  /\ s' = [s EXCEPT !.res[Slot(k)] = r,
                    !.due = IF s.wait # "no" /\ (~Ordered(s) \/ k = Head(s.q)) THEN @ \cup {H(1)} ELSE @]
  /\ Emit("finish", <<k, r>>, Ok, <<>>)
Mode(m) ==
  /\ ~s.over /\ s.mode # m
  /\ s' = [s EXCEPT !.mode = m, !.due = IF s.wait = "m" /\ m # "pending" THEN @ \cup {H(1)} ELSE @]
  /\ Emit("mode", <<0, m>>, Ok, <<>>)
\* the service is taken back: it is the same one, and nothing of the calls stays behind
Into ==
  /\ ~s.over
  /\ s' = [s EXCEPT !.over = TRUE, !.wait = "no", !.due = {}]
  /\ Emit("into", <<>>, <<"ok", 1, 0>>, <<>>)
Do(op, a) ==
  \/ op = "poll" /\ Poll
  \/ op = "feed" /\ Feed
  \/ op = "end" /\ End
  \/ op = "finish" /\ Finish(a[1], a[2])
  \/ op = "mode" /\ Mode(a[2])
  \/ op = "into" /\ Into
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ /\ s.on
           /\ \/ Poll \/ End \/ Into \/ (s.n < NK /\ Feed)
              \/ \E k \in KS, r \in Rs : Finish(k, r)
              \/ \E m \in Modes : Mode(m)
\* requests are called in the order of the stream, each once
InOrder == [][ev'.op = "poll" => \A i \in 1..Len(ev'.log) : \A j \in i+1..Len(ev'.log) : ev'.log[i][2] < ev'.log[j][2]]_<<s, ev>>
\* a response of the ordered form belongs to the oldest request not answered yet
OldestFirst == [][ev'.op = "poll" /\ ev'.r[1] = "ok" /\ Ordered(s) /\ s.q # <<>> => ev'.r[2] = 1000 + Head(s.q)]_<<s, ev>>
\* the end is announced only when everything was answered
EndLast == [][ev'.op = "poll" /\ ev'.r[1] = "end" => s'.q = <<>> /\ s'.eof]_<<s, ev>>
NoneLeft == s.on => (s.wait # "no" => Deliverable(s) = {} \/ H(1) \in s.due)
Inv == NoneLeft
==============================================================================
