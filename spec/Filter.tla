-------------------------------- MODULE Filter --------------------------------
(* tower::filter: Filter (cfg.async = FALSE: the predicate decides during the call)
   and AsyncFilter (its future decides later; the service that promised readiness
   waits inside the response future, a clone of it takes its place).
   The predicate passes a request, rejects it, or replaces it (by request + 100). *)
EXTENDS Common
CONSTANTS NH, NK, Cfgs, Modes, Rs, Vs
VARIABLES s, ev
HS == 1..NH
KS == 1..NK

Off == [on |-> FALSE]
NoF == [st |-> "none", req |-> 0, res |-> "open", polled |-> FALSE]   \* none check verdict called
Start(c) == [on |-> TRUE, cfg |-> c,
             st |-> [h \in HS |-> h = 1],
             ready |-> [h \in HS |-> FALSE], armed |-> [h \in HS |-> FALSE], wait |-> [h \in HS |-> FALSE],
             mode |-> "ready", f |-> [k \in KS |-> NoF], due |-> {}]
Emit(op, a, r, log) == ev' = Event(op, a, r, log, s'.due)
Boot(c) == s' = Start(c) /\ Emit("boot", <<c>>, Ok, <<>>)

Poll(h) ==
  /\ s.st[h]
  /\ LET t == [s EXCEPT !.due = @ \ {H(h)}, !.wait[h] = FALSE, !.ready[h] = FALSE] IN
     IF s.mode = "err1" THEN s' = [t EXCEPT !.armed[h] = FALSE] /\ Emit("poll", <<h>>, <<"err", "e1">>, <<>>)
     ELSE IF s.mode = "ready" \/ s.armed[h] THEN s' = [t EXCEPT !.armed[h] = TRUE, !.ready[h] = TRUE] /\ Emit("poll", <<h>>, Ok, <<>>)
     ELSE s' = [t EXCEPT !.wait[h] = TRUE] /\ Emit("poll", <<h>>, Pend, <<>>)
Passed(v, q) == IF v = "mut" THEN q + 100 ELSE q
CallSync(h, k, v) ==
  /\ s.st[h] /\ s.ready[h] /\ s.f[k].st = "none" /\ ~s.cfg.async
  /\ IF v = "reject"
     THEN /\ s' = [s EXCEPT !.ready[h] = FALSE, !.f[k] = [NoF EXCEPT !.st = "verdict", !.res = "reject", !.req = k]]
          /\ Emit("call", <<h, k, v>>, Ok, <<<<"check", k>>>>)
     ELSE /\ s' = [s EXCEPT !.ready[h] = FALSE, !.armed[h] = FALSE, !.f[k] = [NoF EXCEPT !.st = "called", !.req = Passed(v, k)]]
          /\ Emit("call", <<h, k, v>>, Ok, <<<<"check", k>>, <<"call", Passed(v, k)>>>>)
CallAsync(h, k) ==
  /\ s.st[h] /\ s.ready[h] /\ s.f[k].st = "none" /\ s.cfg.async
  /\ s' = [s EXCEPT !.ready[h] = FALSE, !.armed[h] = FALSE, !.f[k] = [NoF EXCEPT !.st = "check", !.req = k]]
  /\ Emit("call", <<h, k, "later">>, Ok, <<<<"check", k>>>>)
\* Filter::check: the predicate is asked about request 9, nothing is sent
Ask(h, v) ==
  /\ s.st[h]
  /\ s' = s
  /\ Emit("ask", <<h, v>>, IF v = "reject" THEN <<"err", "rejected">> ELSE <<"ok", Passed(v, 9)>>, <<<<"check", 9>>>>)
\* the predicate's future completes
Check(k, v) ==
  /\ s.f[k].st = "check"
  /\ s' = [s EXCEPT !.f[k].st = "verdict", !.f[k].res = v, !.due = IF s.f[k].polled THEN @ \cup {C(k)} ELSE @, !.f[k].polled = FALSE]
  /\ Emit("check", <<k, v>>, Ok, <<>>)
Resp(k) ==
  /\ s.f[k].st # "none"
  /\ LET x == s.f[k]
         t == [s EXCEPT !.due = @ \ {C(k)}] IN
     CASE x.st = "check" -> s' = [t EXCEPT !.f[k].polled = TRUE] /\ Emit("resp", <<k>>, Pend, <<>>)
       [] x.st = "verdict" /\ x.res = "reject" -> s' = [t EXCEPT !.f[k] = NoF] /\ Emit("resp", <<k>>, <<"err", "rejected">>, <<>>)
       [] x.st = "verdict" /\ x.res # "reject" ->
            /\ s' = [t EXCEPT !.f[k] = [st |-> "called", req |-> Passed(x.res, x.req), res |-> "open", polled |-> TRUE]]
            /\ Emit("resp", <<k>>, Pend, <<<<"call", Passed(x.res, x.req)>>>>)
       [] x.st = "called" /\ x.res = "open" -> s' = [t EXCEPT !.f[k].polled = TRUE] /\ Emit("resp", <<k>>, Pend, <<>>)
       [] x.st = "called" /\ x.res # "open" ->
            /\ s' = [t EXCEPT !.f[k] = NoF]
            /\ Emit("resp", <<k>>, IF x.res = "ok" THEN <<"ok", 1000 + x.req>> ELSE <<"err", "r7">>, <<>>)
Finish(k, r) ==
  /\ s.f[k].st = "called" /\ s.f[k].res = "open"
  /\ s' = [s EXCEPT !.f[k].res = r, !.due = IF s.f[k].polled THEN @ \cup {C(k)} ELSE @]
  /\ Emit("finish", <<0, s.f[k].req, r>>, Ok, <<>>)
FinishReq(q, r) == \E k \in KS : s.f[k].req = q /\ Finish(k, r)
Cancel(k) ==
  /\ s.f[k].st # "none"
  /\ s' = [s EXCEPT !.f[k] = NoF, !.due = @ \ {C(k)}]
  /\ Emit("cancel", <<k>>, Ok, IF s.f[k].st = "called" THEN <<<<"drop", s.f[k].req>>>> ELSE <<>>)
Clone(h, h2) ==
  /\ s.st[h] /\ ~s.st[h2] /\ \A i \in HS : i < h2 => s.st[i]
  /\ s' = [s EXCEPT !.st[h2] = TRUE, !.armed[h2] = FALSE, !.ready[h2] = FALSE, !.wait[h2] = FALSE]
  /\ Emit("clone", <<h, h2>>, Ok, <<>>)
Mode(m) ==
  /\ s.mode # m
  /\ s' = [s EXCEPT !.mode = m,
             !.due = IF m = "pending" THEN @ ELSE @ \cup {H(h) : h \in {x \in HS : s.wait[x]}},
             !.wait = IF m = "pending" THEN @ ELSE [h \in HS |-> FALSE]]
  /\ Emit("mode", <<0, m>>, Ok, <<>>)

Do(op, a) ==
  \/ op = "poll" /\ Poll(a[1])
  \/ op = "call" /\ IF a[3] = "later" THEN CallAsync(a[1], a[2]) ELSE CallSync(a[1], a[2], a[3])
  \/ op = "ask" /\ Ask(a[1], a[2])
  \/ op = "check" /\ Check(a[1], a[2])
  \/ op = "resp" /\ Resp(a[1])
  \/ op = "finish" /\ FinishReq(a[2], a[3])
  \/ op = "cancel" /\ Cancel(a[1])
  \/ op = "clone" /\ Clone(a[1], a[2])
  \/ op = "mode" /\ Mode(a[2])
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
FirstFree == {k \in KS : s.f[k].st = "none" /\ \A j \in KS : j < k => s.f[j].st # "none"}
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ /\ s.on
           /\ \/ \E h \in HS : Poll(h) \/ (\E v \in Vs : Ask(h, v)) \/ (\E h2 \in HS : Clone(h, h2)) \/ \E k \in FirstFree : CallAsync(h, k) \/ \E v \in Vs : CallSync(h, k, v)
              \/ \E k \in KS : Resp(k) \/ Cancel(k) \/ (\E r \in Rs : Finish(k, r)) \/ \E v \in Vs : Check(k, v)
              \/ \E m \in Modes : Mode(m)
\* the inner service sees exactly the requests that passed, as the predicate left them
OnlyPassed == [][\A i \in 1..Len(ev'.log) : ev'.log[i][1] = "call" =>
   \/ ev'.op = "call" /\ ev'.a[3] \in {"pass", "mut"} /\ ev'.log[i][2] = Passed(ev'.a[3], ev'.a[2])
   \/ ev'.op = "resp" /\ s.f[ev'.a[1]].st = "verdict" /\ s.f[ev'.a[1]].res \in {"pass", "mut"}]_<<s, ev>>
RejectedFails == [][ev'.op = "resp" /\ s.f[ev'.a[1]].res = "reject" => ev'.r = <<"err", "rejected">>]_<<s, ev>>
Inv == s.on => \A k \in KS : s.f[k].polled /\ s.f[k].st = "called" /\ s.f[k].res # "open" => C(k) \in s.due
==============================================================================
