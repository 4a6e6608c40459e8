----------------------------- MODULE SpawnReady -----------------------------
(* tower::spawn_ready::SpawnReady: an inner service that is not ready is driven to
   readiness by a background task, also while nobody polls.  After every
   operation the runtime runs until it is idle. *)
EXTENDS Common
CONSTANTS NK, Cfgs, Modes, Rs
VARIABLES s, ev
KS == 1..NK
Off == [on |-> FALSE]
NoF == [st |-> "none", req |-> 0, res |-> "open", polled |-> FALSE]
Start(c) == [on |-> TRUE, cfg |-> c, live |-> TRUE,
             bg |-> "none",     \* none running ok err; dead: its failure was reported
             armed |-> FALSE, mode |-> "ready", wait |-> FALSE,
             f |-> [k \in KS |-> NoF], due |-> {}]
Emit(op, a, r, log) == ev' = Event(op, a, r, log, s'.due)
Boot(c) == s' = Start(c) /\ Emit("boot", <<c>>, Ok, <<>>)

Direct(t) ==
  IF t.mode = "err1" THEN <<[t EXCEPT !.armed = FALSE], <<"err", "e1">>>>
  ELSE IF t.mode = "ready" \/ t.armed THEN <<[t EXCEPT !.armed = TRUE], Ok>>
  ELSE <<[t EXCEPT !.bg = "running", !.wait = TRUE], Pend>>
Poll ==
  /\ s.live /\ s.bg # "dead"
  /\ LET t == [s EXCEPT !.due = @ \ {H(1)}, !.wait = FALSE]
         y == CASE s.bg = "none" -> Direct(t)
                [] s.bg = "running" -> <<[t EXCEPT !.wait = TRUE], Pend>>
                [] s.bg = "ok" -> Direct([t EXCEPT !.bg = "none"])
                [] s.bg = "err" -> <<[t EXCEPT !.bg = "dead"], <<"err", "e1">>>>
     IN s' = y[1] /\ Emit("poll", <<1>>, y[2], <<>>)
Call(k) ==
  /\ s.live /\ s.bg = "none" /\ s.armed /\ s.f[k].st = "none"
  /\ s' = [s EXCEPT !.armed = FALSE, !.f[k] = [NoF EXCEPT !.st = "open", !.req = k]]
  /\ Emit("call", <<1, k>>, Ok, <<<<"call", k>>>>)
Resp(k) ==
  /\ s.f[k].st = "open"
  /\ LET x == s.f[k]
         t == [s EXCEPT !.due = @ \ {C(k)}] IN
     IF x.res = "open" THEN s' = [t EXCEPT !.f[k].polled = TRUE] /\ Emit("resp", <<k>>, Pend, <<>>)
     ELSE /\ s' = [t EXCEPT !.f[k] = NoF]
          /\ Emit("resp", <<k>>, IF x.res = "ok" THEN <<"ok", 1000 + x.req>> ELSE <<"err", "r7">>, <<>>)
Finish(k, r) ==
  /\ s.f[k].st = "open" /\ s.f[k].res = "open"
  /\ s' = [s EXCEPT !.f[k].res = r, !.due = IF s.f[k].polled THEN @ \cup {C(k)} ELSE @]
  /\ Emit("finish", <<0, k, r>>, Ok, <<>>)
Cancel(k) ==
  /\ s.f[k].st = "open"
  /\ s' = [s EXCEPT !.f[k] = NoF, !.due = @ \ {C(k)}]
  /\ Emit("cancel", <<k>>, Ok, <<<<"drop", k>>>>)
\* the background task runs at once when the inner service can make progress
Mode(m) ==
  /\ s.mode # m
  /\ s' = IF s.bg = "running" /\ m # "pending"
          THEN [s EXCEPT !.mode = m, !.bg = IF m = "ready" THEN "ok" ELSE "err", !.armed = m = "ready",
                         !.due = IF s.wait THEN @ \cup {H(1)} ELSE @]
          ELSE [s EXCEPT !.mode = m]
  /\ Emit("mode", <<0, m>>, Ok, <<>>)
Drop ==
  /\ s.live
  /\ s' = [s EXCEPT !.live = FALSE, !.bg = "none", !.armed = FALSE, !.wait = FALSE, !.due = @ \ {H(1)}]
  /\ Emit("drop", <<1>>, Ok, <<>>)
\* how many instances of the inner service exist: none once the handle is gone or it failed
Count ==
  /\ s' = s
  /\ Emit("live", <<>>, <<"ok", IF ~s.live \/ s.bg \in {"err", "dead"} THEN 0 ELSE 1>>, <<>>)

Do(op, a) ==
  \/ op = "poll" /\ Poll
  \/ op = "call" /\ Call(a[2])
  \/ op = "resp" /\ Resp(a[1])
  \/ op = "finish" /\ Finish(a[2], a[3])
  \/ op = "cancel" /\ Cancel(a[1])
  \/ op = "mode" /\ Mode(a[2])
  \/ op = "drop" /\ Drop
  \/ op = "live" /\ Count
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
FirstFree == {k \in KS : s.f[k].st = "none" /\ \A j \in KS : j < k => s.f[j].st # "none"}
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ /\ s.on
           /\ \/ Poll \/ Drop \/ Count
              \/ \E k \in FirstFree : Call(k)
              \/ \E k \in KS : Resp(k) \/ Cancel(k) \/ \E r \in Rs : Finish(k, r)
              \/ \E m \in Modes : Mode(m)
Inv == s.on => /\ s.bg = "running" => s.mode = "pending"
               /\ s.wait => s.bg # "none"
               /\ s.wait /\ s.bg # "running" => H(1) \in s.due
==============================================================================
