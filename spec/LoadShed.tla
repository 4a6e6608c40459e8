------------------------------- MODULE LoadShed -------------------------------
(* tower::load_shed: never makes the caller wait; refuses when the inner service
   was not ready at the caller's last poll_ready. *)
EXTENDS Common
CONSTANTS NH, NK, Cfgs, Modes, Rs
VARIABLES s, ev
HS == 1..NH
KS == 1..NK

Off == [on |-> FALSE]
Start(c) == [on |-> TRUE, cfg |-> c,
             st |-> [h \in HS |-> h = 1],
             armed |-> [h \in HS |-> TRUE],    \* the caller may call: the last poll did not fail
             irdy |-> [h \in HS |-> FALSE],    \* inner readiness obtained and unused
             ready |-> [h \in HS |-> FALSE],   \* inner was ready at the last poll
             mode |-> "ready",
             call |-> [k \in KS |-> "none"],   \* none open polled ok err shed
             due |-> {}]
Emit(op, a, r, log) == ev' = Event(op, a, r, log, s'.due)
Boot(c) == s' = Start(c) /\ Emit("boot", <<c>>, Ok, <<>>)

Poll(h) ==
  /\ s.st[h]
  /\ LET inner == s.mode = "ready" \/ (s.mode = "pending" /\ s.irdy[h]) IN
     IF s.mode = "err1"
     THEN s' = [s EXCEPT !.armed[h] = FALSE, !.irdy[h] = FALSE, !.ready[h] = FALSE, !.due = @ \ {H(h)}]
          /\ Emit("poll", <<h>>, <<"err", "e1">>, <<>>)
     ELSE s' = [s EXCEPT !.armed[h] = TRUE, !.irdy[h] = inner, !.ready[h] = inner, !.due = @ \ {H(h)}]
          /\ Emit("poll", <<h>>, Ok, <<>>)
Call(h, k) ==
  \* (also without a readiness check since the previous request: then there is no readiness to use)
  /\ s.st[h] /\ s.armed[h] /\ s.call[k] = "none"
  /\ s' = [s EXCEPT !.ready[h] = FALSE, !.irdy[h] = FALSE,
                    !.call[k] = IF s.ready[h] THEN "open" ELSE "shed"]
  /\ Emit("call", <<h, k>>, Ok, IF s.ready[h] THEN <<<<"call", k>>>> ELSE <<>>)
Resp(k) ==
  /\ s.call[k] # "none"
  /\ LET t == [s EXCEPT !.due = @ \ {C(k)}]  d == [t EXCEPT !.call[k] = "none"] IN
     CASE s.call[k] \in {"open", "polled"} -> s' = [t EXCEPT !.call[k] = "polled"] /\ Emit("resp", <<k>>, Pend, <<>>)
       [] s.call[k] = "ok" -> s' = d /\ Emit("resp", <<k>>, <<"ok", 1000 + k>>, <<>>)
       [] s.call[k] = "err" -> s' = d /\ Emit("resp", <<k>>, <<"err", "r7">>, <<>>)
       [] s.call[k] = "shed" -> s' = d /\ Emit("resp", <<k>>, <<"err", "overloaded">>, <<>>)
Finish(k, r) ==
  /\ s.call[k] \in {"open", "polled"}
  /\ s' = [s EXCEPT !.call[k] = r, !.due = IF s.call[k] = "polled" THEN @ \cup {C(k)} ELSE @]
  /\ Emit("finish", <<0, k, r>>, Ok, <<>>)
Cancel(k) ==
  /\ s.call[k] # "none"
  /\ s' = [s EXCEPT !.call[k] = "none", !.due = @ \ {C(k)}]
  /\ Emit("cancel", <<k>>, Ok, IF s.call[k] = "shed" THEN <<>> ELSE <<<<"drop", k>>>>)
Clone(h, h2) ==
  /\ s.st[h] /\ ~s.st[h2] /\ \A i \in HS : i < h2 => s.st[i]
  /\ s' = [s EXCEPT !.st[h2] = TRUE, !.armed[h2] = TRUE, !.ready[h2] = FALSE, !.irdy[h2] = FALSE]
  /\ Emit("clone", <<h, h2>>, Ok, <<>>)
Mode(m) == s.mode # m /\ s' = [s EXCEPT !.mode = m] /\ Emit("mode", <<0, m>>, Ok, <<>>)

Do(op, a) ==
  \/ op = "poll" /\ Poll(a[1])
  \/ op = "call" /\ Call(a[1], a[2])
  \/ op = "resp" /\ Resp(a[1])
  \/ op = "finish" /\ Finish(a[2], a[3])
  \/ op = "cancel" /\ Cancel(a[1])
  \/ op = "clone" /\ Clone(a[1], a[2])
  \/ op = "mode" /\ Mode(a[2])
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
FirstFree == {k \in KS : s.call[k] = "none" /\ \A j \in KS : j < k => s.call[j] # "none"}
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ /\ s.on
           /\ \/ \E h \in HS : Poll(h) \/ (\E h2 \in HS : Clone(h, h2)) \/ \E k \in FirstFree : Call(h, k)
              \/ \E k \in KS : Resp(k) \/ Cancel(k) \/ \E r \in Rs : Finish(k, r)
              \/ \E m \in Modes : Mode(m)

\* poll_ready never makes the caller wait
NeverWaits == [][ev'.op = "poll" => ev'.r # Pend]_<<s, ev>>
\* a request reaches the inner service only on a readiness obtained for it, and is shed only without one
ShedExactly == [][ev'.op = "call" => (ev'.log # <<>> <=> s.irdy[ev'.a[1]])]_<<s, ev>>
Inv == s.on => \A h \in HS : s.ready[h] => s.irdy[h] /\ s.armed[h]
===============================================================================
