-------------------------------- MODULE Steer --------------------------------
(* tower::steer::Steer over NS services, with clones.  In which order, and how
   often, services are polled while some are not ready is left open: what matters
   is that Steer is ready exactly when every service of that handle has reported
   ready since it was last called, that nobody sleeps through that, and that the
   picker's choice gets the request. *)
EXTENDS Common
CONSTANTS NH, NK, NS, Cfgs, Modes, Rs
VARIABLES s, ev
HS == 1..NH
KS == 1..NK
SV == 1..NS

Off == [on |-> FALSE]
Start(c) == [on |-> TRUE, cfg |-> c,
             st |-> [h \in HS |-> h = 1],
             nr |-> [h \in HS |-> IF h = 1 THEN SV ELSE {}],      \* services that have not promised anything
             wait |-> [h \in HS |-> FALSE],
             mode |-> [i \in SV |-> "ready"],
             f |-> [k \in KS |-> [st |-> "none", i |-> 0, req |-> 0, res |-> "open", polled |-> FALSE]],
             due |-> {}]
Emit(op, a, r, log) == ev' = Event(op, a, r, log, s'.due)
Boot(c) == s' = Start(c) /\ Emit("boot", <<c>>, Ok, <<>>)
\* a waiting handle must have been woken once nothing it waits for is pending
Settle(t) == [t EXCEPT !.due = @ \cup {H(h) : h \in {x \in HS : t.wait[x] /\ \A i \in t.nr[x] : t.mode[i] # "pending"}}]

Poll(h) ==
  /\ s.st[h]
  /\ LET N == s.nr[h]
         P == {i \in N : s.mode[i] = "pending"}
         E == {i \in N : s.mode[i] = "err1"}
         R == N \ (P \cup E)
         t == [s EXCEPT !.due = @ \ {H(h)}, !.wait[h] = FALSE]
     IN \/ P = {} /\ E = {} /\ s' = [t EXCEPT !.nr[h] = {}] /\ Emit("poll", <<h>>, Ok, <<>>)
        \/ P # {} /\ (\E A \in SUBSET R : s' = [t EXCEPT !.nr[h] = N \ A, !.wait[h] = TRUE])
                  /\ Emit("poll", <<h>>, Pend, <<>>)
        \/ E # {} /\ (\E A \in SUBSET R : s' = [t EXCEPT !.nr[h] = N \ A])
                  /\ Emit("poll", <<h>>, <<"err", "e1">>, <<>>)
\* the request is 100 * (index of the service the picker chooses) + k
Call(h, k, req) ==
  /\ s.st[h] /\ s.nr[h] = {} /\ s.f[k].st = "none"
  /\ LET i == req \div 100 IN
     /\ i \in SV
     /\ s' = [s EXCEPT !.nr[h] = {i}, !.f[k] = [st |-> "open", i |-> i, req |-> req, res |-> "open", polled |-> FALSE]]
     /\ Emit("call", <<h, k, req>>, Ok, <<<<"pick", req, NS>>, <<"call", i, req>>>>)
Resp(k) ==
  /\ s.f[k].st = "open"
  /\ LET x == s.f[k]
         t == [s EXCEPT !.due = @ \ {C(k)}] IN
     IF x.res = "open" THEN s' = [t EXCEPT !.f[k].polled = TRUE] /\ Emit("resp", <<k>>, Pend, <<>>)
     ELSE /\ s' = [t EXCEPT !.f[k] = [st |-> "none", i |-> 0, req |-> 0, res |-> "open", polled |-> FALSE]]
          /\ Emit("resp", <<k>>, IF x.res = "ok" THEN <<"ok", 1000 + x.req>> ELSE <<"err", "r7">>, <<>>)
Finish(k, r) ==
  /\ s.f[k].st = "open" /\ s.f[k].res = "open"
  /\ s' = [s EXCEPT !.f[k].res = r, !.due = IF s.f[k].polled THEN @ \cup {C(k)} ELSE @]
  /\ Emit("finish", <<s.f[k].i, s.f[k].req, r>>, Ok, <<>>)
FinishReq(i, q, r) == \E k \in KS : s.f[k].req = q /\ s.f[k].i = i /\ Finish(k, r)
Cancel(k) ==
  /\ s.f[k].st = "open"
  /\ s' = [s EXCEPT !.f[k] = [st |-> "none", i |-> 0, req |-> 0, res |-> "open", polled |-> FALSE], !.due = @ \ {C(k)}]
  /\ Emit("cancel", <<k>>, Ok, <<<<"drop", s.f[k].i, s.f[k].req>>>>)
\* the clone's services are clones too: none of them has promised anything
Clone(h, h2) ==
  /\ s.st[h] /\ ~s.st[h2] /\ \A i \in HS : i < h2 => s.st[i]
  /\ s' = [s EXCEPT !.st[h2] = TRUE, !.nr[h2] = SV, !.wait[h2] = FALSE]
  /\ Emit("clone", <<h, h2>>, Ok, <<>>)
Drop(h) ==
  /\ s.st[h] /\ \E i \in HS : i # h /\ s.st[i]
  /\ s' = [s EXCEPT !.st[h] = FALSE, !.nr[h] = {}, !.wait[h] = FALSE, !.due = @ \ {H(h)}]
  /\ Emit("drop", <<h>>, Ok, <<>>)
Mode(i, m) ==
  /\ s.mode[i] # m
  /\ s' = Settle([s EXCEPT !.mode[i] = m])
  /\ Emit("mode", <<i, m>>, Ok, <<>>)

Do(op, a) ==
  \/ op = "poll" /\ Poll(a[1])
  \/ op = "call" /\ Call(a[1], a[2], a[3])
  \/ op = "resp" /\ Resp(a[1])
  \/ op = "finish" /\ FinishReq(a[1], a[2], a[3])
  \/ op = "cancel" /\ Cancel(a[1])
  \/ op = "clone" /\ Clone(a[1], a[2])
  \/ op = "drop" /\ Drop(a[1])
  \/ op = "mode" /\ Mode(a[1], a[2])
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
FirstFree == {k \in KS : s.f[k].st = "none" /\ \A j \in KS : j < k => s.f[j].st # "none"}
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ /\ s.on
           /\ \/ \E h \in HS : Poll(h) \/ Drop(h) \/ (\E h2 \in HS : Clone(h, h2))
                 \/ \E k \in FirstFree, i \in SV : Call(h, k, 100 * i + k)
              \/ \E k \in KS : Resp(k) \/ Cancel(k) \/ \E r \in Rs : Finish(k, r)
              \/ \E i \in SV, m \in Modes : Mode(i, m)
\* ready means that every service of this handle has promised to take a request
ReadyMeansAll == [][ev'.op = "poll" /\ ev'.r = Ok => s'.nr[ev'.a[1]] = {} /\ \A i \in s.nr[ev'.a[1]] : s.mode[i] = "ready"]_<<s, ev>>
Routed == [][ev'.op = "call" => ev'.log[2][2] = ev'.a[3] \div 100]_<<s, ev>>
NoOversleep == s.on => \A h \in HS : s.wait[h] /\ (\A i \in s.nr[h] : s.mode[i] # "pending") => H(h) \in s.due
Inv == NoOversleep
==============================================================================
