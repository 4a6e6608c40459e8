-------------------------------- MODULE Timeout --------------------------------
(* tower::timeout: each response has cfg.t units of 1/cfg.u ms counted from its call.
   A response that is available when the future is polled wins over an elapsed timer.
   A timer never fires early, and goes off at the full millisecond at the latest. *)
EXTENDS Common
CONSTANTS NH, NK, Cfgs, Modes, Rs, Advs
VARIABLES s, ev
HS == 1..NH
KS == 1..NK

Off == [on |-> FALSE]
Start(c) == [on |-> TRUE, cfg |-> c,
             st |-> [h \in HS |-> h = 1],
             armed |-> [h \in HS |-> FALSE],
             iwait |-> [h \in HS |-> FALSE],
             mode |-> "ready",
             call |-> [k \in KS |-> "none"],   \* none open ok err
             polled |-> [k \in KS |-> FALSE],
             left |-> [k \in KS |-> 0],
             due |-> {}]
Emit(op, a, r, log) == ev' = Event(op, a, r, log, s'.due)
Boot(c) == s' = Start(c) /\ Emit("boot", <<c>>, Ok, <<>>)

Late == 1 - s.cfg.u
Poll(h) ==
  /\ s.st[h]
  /\ LET t == [s EXCEPT !.due = @ \ {H(h)}, !.iwait[h] = FALSE] IN
     IF s.mode = "err1" THEN s' = [t EXCEPT !.armed[h] = FALSE] /\ Emit("poll", <<h>>, <<"err", "e1">>, <<>>)
     ELSE IF s.mode = "ready" \/ s.armed[h] THEN s' = [t EXCEPT !.armed[h] = TRUE] /\ Emit("poll", <<h>>, Ok, <<>>)
     ELSE s' = [t EXCEPT !.iwait[h] = TRUE] /\ Emit("poll", <<h>>, Pend, <<>>)
Call(h, k) ==
  /\ s.st[h] /\ s.armed[h] /\ s.call[k] = "none"
  /\ s' = [s EXCEPT !.armed[h] = FALSE, !.call[k] = "open", !.polled[k] = FALSE, !.left[k] = s.cfg.t]
  /\ Emit("call", <<h, k>>, Ok, <<<<"call", k>>>>)
Resp(k) ==
  /\ s.call[k] # "none"
  /\ LET t == [s EXCEPT !.due = @ \ {C(k)}]  d == [t EXCEPT !.call[k] = "none", !.polled[k] = FALSE, !.left[k] = 0] IN
     CASE s.call[k] = "ok" -> s' = d /\ Emit("resp", <<k>>, <<"ok", 1000 + k>>, <<>>)
       [] s.call[k] = "err" -> s' = d /\ Emit("resp", <<k>>, <<"err", "r7">>, <<>>)
       [] OTHER -> \/ s.left[k] <= 0 /\ s' = d /\ Emit("resp", <<k>>, <<"err", "elapsed">>, <<<<"drop", k>>>>)
                   \/ s.left[k] > Late /\ s' = [t EXCEPT !.polled[k] = TRUE] /\ Emit("resp", <<k>>, Pend, <<>>)
Finish(k, r) ==
  /\ s.call[k] = "open"
  /\ s' = [s EXCEPT !.call[k] = r, !.due = IF s.polled[k] THEN @ \cup {C(k)} ELSE @]
  /\ Emit("finish", <<0, k, r>>, Ok, <<>>)
Cancel(k) ==
  /\ s.call[k] # "none"
  /\ s' = [s EXCEPT !.call[k] = "none", !.polled[k] = FALSE, !.left[k] = 0, !.due = @ \ {C(k)}]
  /\ Emit("cancel", <<k>>, Ok, <<<<"drop", k>>>>)
Clone(h, h2) ==
  /\ s.st[h] /\ ~s.st[h2] /\ \A i \in HS : i < h2 => s.st[i]
  /\ s' = [s EXCEPT !.st[h2] = TRUE, !.armed[h2] = FALSE, !.iwait[h2] = FALSE]
  /\ Emit("clone", <<h, h2>>, Ok, <<>>)
Mode(m) ==
  /\ s.mode # m
  /\ s' = [s EXCEPT !.mode = m,
             !.due = IF m = "pending" THEN @ ELSE @ \cup {H(h) : h \in {x \in HS : s.iwait[x]}},
             !.iwait = IF m = "pending" THEN @ ELSE [h \in HS |-> FALSE]]
  /\ Emit("mode", <<0, m>>, Ok, <<>>)
Advance(d) ==
  /\ LET left == [k \in KS |-> IF s.call[k] = "none" THEN 0 ELSE Max(s.left[k] - d, Late)] IN
     s' = [s EXCEPT !.left = left,
             !.due = @ \cup {C(k) : k \in {x \in KS : s.call[x] # "none" /\ s.polled[x] /\ left[x] = Late}}]
  /\ Emit("adv", <<d>>, Ok, <<>>)

Do(op, a) ==
  \/ op = "poll" /\ Poll(a[1])
  \/ op = "call" /\ Call(a[1], a[2])
  \/ op = "resp" /\ Resp(a[1])
  \/ op = "finish" /\ Finish(a[2], a[3])
  \/ op = "cancel" /\ Cancel(a[1])
  \/ op = "clone" /\ Clone(a[1], a[2])
  \/ op = "mode" /\ Mode(a[2])
  \/ op = "adv" /\ Advance(a[1])
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
FirstFree == {k \in KS : s.call[k] = "none" /\ \A j \in KS : j < k => s.call[j] # "none"}
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ /\ s.on
           /\ \/ \E h \in HS : Poll(h) \/ (\E h2 \in HS : Clone(h, h2)) \/ \E k \in FirstFree : Call(h, k)
              \/ \E k \in KS : Resp(k) \/ Cancel(k) \/ \E r \in Rs : Finish(k, r)
              \/ \E m \in Modes : Mode(m)
              \/ \E d \in Advs : Advance(d)

\* never early, never lost: elapsed only after the full time, an available answer is never replaced
NeverEarly == [][ev'.op = "resp" /\ ev'.r = <<"err", "elapsed">> =>
                  s.left[ev'.a[1]] <= 0 /\ s.call[ev'.a[1]] = "open"]_<<s, ev>>
\* a waiting caller is woken when the time is over
WokenAtDeadline == s.on => \A k \in KS : s.polled[k] /\ s.call[k] # "none" /\ s.left[k] = Late => C(k) \in s.due
Inv == WokenAtDeadline
===============================================================================
