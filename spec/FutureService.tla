----------------------------- MODULE FutureService -----------------------------
(* tower::util::future_service: a service that first is a future which yields the
   service. Clones made before that have a future of their own that ends likewise. *)
EXTENDS Common
CONSTANTS NH, NK, Cfgs, Modes, Rs
VARIABLES s, ev
HS == 1..NH
KS == 1..NK
Off == [on |-> FALSE]
Start(c) == [on |-> TRUE, cfg |-> c,
             st |-> [h \in HS |-> IF h = 1 THEN "fut" ELSE "none"],   \* none fut svc dead
             made |-> "open",                                          \* open ok err: how the future ends
             ready |-> [h \in HS |-> FALSE], armed |-> [h \in HS |-> FALSE],
             wait |-> [h \in HS |-> "none"],                           \* none made mode: what the last poll waits for
             mode |-> "ready", call |-> [k \in KS |-> "none"], due |-> {}]   \* none open polled ok err
Emit(op, a, r, log) == ev' = Event(op, a, r, log, s'.due)
Boot(c) == s' = Start(c) /\ Emit("boot", <<c>>, Ok, <<>>)
Poll(h) ==
  /\ s.st[h] \in {"fut", "svc"}
  /\ LET t == [s EXCEPT !.due = @ \ {H(h)}, !.wait[h] = "none", !.ready[h] = FALSE] IN
     IF s.st[h] = "fut" /\ s.made = "open" THEN s' = [t EXCEPT !.wait[h] = "made"] /\ Emit("poll", <<h>>, Pend, <<>>)
     ELSE IF s.st[h] = "fut" /\ s.made = "err" THEN s' = [t EXCEPT !.st[h] = "dead"] /\ Emit("poll", <<h>>, <<"err", "r7">>, <<>>)
     ELSE LET u == [t EXCEPT !.st[h] = "svc"] IN
          IF s.mode = "err1" THEN s' = [u EXCEPT !.armed[h] = FALSE] /\ Emit("poll", <<h>>, <<"err", "e1">>, <<>>)
          ELSE IF s.mode = "ready" \/ s.armed[h] THEN s' = [u EXCEPT !.armed[h] = TRUE, !.ready[h] = TRUE] /\ Emit("poll", <<h>>, Ok, <<>>)
          ELSE s' = [u EXCEPT !.wait[h] = "mode"] /\ Emit("poll", <<h>>, Pend, <<>>)
Made(r) ==
  /\ s.made = "open"
  /\ s' = [s EXCEPT !.made = r, !.due = @ \cup {H(h) : h \in {x \in HS : s.wait[x] = "made"}},
                    !.wait = [h \in HS |-> IF s.wait[h] = "made" THEN "none" ELSE s.wait[h]]]
  /\ Emit("made", <<r>>, Ok, <<>>)
Call(h, k) ==
  /\ s.ready[h] /\ s.call[k] = "none"
  /\ s' = [s EXCEPT !.ready[h] = FALSE, !.armed[h] = FALSE, !.call[k] = "open"]
  /\ Emit("call", <<h, k>>, Ok, <<<<"call", k>>>>)
Resp(k) ==
  /\ s.call[k] # "none"
  /\ LET t == [s EXCEPT !.due = @ \ {C(k)}]  d == [t EXCEPT !.call[k] = "none"] IN
     CASE s.call[k] \in {"open", "polled"} -> s' = [t EXCEPT !.call[k] = "polled"] /\ Emit("resp", <<k>>, Pend, <<>>)
       [] s.call[k] = "ok" -> s' = d /\ Emit("resp", <<k>>, <<"ok", 1000 + k>>, <<>>)
       [] s.call[k] = "err" -> s' = d /\ Emit("resp", <<k>>, <<"err", "r7">>, <<>>)
Finish(k, r) ==
  /\ s.call[k] \in {"open", "polled"}
  /\ s' = [s EXCEPT !.call[k] = r, !.due = IF s.call[k] = "polled" THEN @ \cup {C(k)} ELSE @]
  /\ Emit("finish", <<0, k, r>>, Ok, <<>>)
Cancel(k) ==
  /\ s.call[k] # "none"
  /\ s' = [s EXCEPT !.call[k] = "none", !.due = @ \ {C(k)}]
  /\ Emit("cancel", <<k>>, Ok, <<<<"drop", k>>>>)
Clone(h, h2) ==
  /\ s.st[h] # "none" /\ s.st[h2] = "none" /\ \A i \in HS : i < h2 => s.st[i] # "none"
  /\ s' = [s EXCEPT !.st[h2] = IF s.st[h] = "svc" THEN "svc" ELSE "fut", !.armed[h2] = FALSE, !.ready[h2] = FALSE, !.wait[h2] = "none"]
  /\ Emit("clone", <<h, h2>>, Ok, <<>>)
Mode(m) ==
  /\ s.mode # m
  /\ s' = [s EXCEPT !.mode = m,
             !.due = IF m = "pending" THEN @ ELSE @ \cup {H(h) : h \in {x \in HS : s.wait[x] = "mode"}},
             !.wait = IF m = "pending" THEN @ ELSE [h \in HS |-> IF s.wait[h] = "mode" THEN "none" ELSE s.wait[h]]]
  /\ Emit("mode", <<0, m>>, Ok, <<>>)
Do(op, a) ==
  \/ op = "poll" /\ Poll(a[1])
  \/ op = "made" /\ Made(a[1])
  \/ op = "call" /\ Call(a[1], a[2])
  \/ op = "resp" /\ Resp(a[1])
  \/ op = "finish" /\ Finish(a[2], a[3])
  \/ op = "cancel" /\ Cancel(a[1])
  \/ op = "clone" /\ Clone(a[1], a[2])
  \/ op = "mode" /\ Mode(a[2])
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
FirstFree == {k \in KS : s.call[k] = "none" /\ \A j \in KS : j < k => s.call[j] # "none"}
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ /\ s.on
           /\ \/ \E h \in HS : Poll(h) \/ (\E h2 \in HS : Clone(h, h2)) \/ \E k \in FirstFree : Call(h, k)
              \/ \E k \in KS : Resp(k) \/ Cancel(k) \/ \E r \in Rs : Finish(k, r)
              \/ \E r \in {"ok", "err"} : Made(r)
              \/ \E m \in Modes : Mode(m)
\* never ready before the future has given the service
NotBefore == [][s.on /\ s.made # "ok" /\ ev'.op = "poll" => ev'.r # Ok]_<<s, ev>>
Inv == s.on => \A h \in HS : s.ready[h] => s.st[h] = "svc"
================================================================================
