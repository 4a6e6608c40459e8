-------------------------------- MODULE Load --------------------------------
(* tower::load: PendingRequests, PeakEwma, Constant and completion tracking.
   Time passes in steps of 1024 units, in which the estimate halves (the harness picks
   the decay accordingly); a unit is cfg.unit microseconds.  A discovery wrapper makes several services, each with a load
   of its own.  Estimates are kept in 1/256 units.             *)
EXTENDS Common
CONSTANTS NS, NK, Cfgs, Modes, Rs, Advs, MaxT
VARIABLES s, ev
HS == 1..NS
KS == 1..NK
ST == 1024
U == 256
Off == [on |-> FALSE]
NoF == [st |-> "none", h |-> 0, res |-> "open", polled |-> FALSE, age |-> 0]
\* cfg: ns: the number of services; what \in pending, ewma, const; track \in resp, hold; rtt: the default estimate (units); kind: how it is built
Start(c) == [on |-> TRUE, cfg |-> c, armed |-> [h \in HS |-> FALSE], wait |-> [h \in HS |-> FALSE], mode |-> [h \in HS |-> "ready"],
             f |-> [k \in KS |-> NoF],      \* none open ok/err: response there; held: response given, tracker kept
             est |-> [h \in HS |-> c.rtt * U], upd |-> [h \in HS |-> 0], t |-> 0, due |-> {}]
Emit(op, a, r, log) == ev' = Event(op, a, r, log, s'.due)
Boot(c) == s' = Start(c) /\ Emit("boot", <<c>>, Ok, <<>>)

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Half(x, n) == IF n > 29 THEN 0 ELSE x \div Pow2(n)
\* a round trip of rtt (units) is observed: a larger one counts at once, a smaller one pulls the
\* estimate down the more the longer ago the last update was
Observe(t, h, rtt) == [t EXCEPT !.est[h] = IF @ < rtt THEN rtt ELSE Half(@, t.upd[h] \div ST) + rtt - Half(rtt, t.upd[h] \div ST),
                                !.upd[h] = 0]
Held(t, h) == {k \in KS : t.f[k].st # "none" /\ t.f[k].h = h}
Release(t, k) == Observe([t EXCEPT !.f[k] = NoF, !.due = @ \ {C(k)}], t.f[k].h, t.f[k].age * U)

Poll(h) ==
  /\ h <= s.cfg.ns
  /\ LET t == [s EXCEPT !.due = @ \ {H(h)}, !.wait[h] = FALSE] IN
     IF s.mode[h] = "err1" THEN s' = [t EXCEPT !.armed[h] = FALSE] /\ Emit("poll", <<h>>, <<"err", "e1">>, <<>>)
     ELSE IF s.mode[h] = "ready" \/ s.armed[h] THEN s' = [t EXCEPT !.armed[h] = TRUE] /\ Emit("poll", <<h>>, Ok, <<>>)
     ELSE s' = [t EXCEPT !.wait[h] = TRUE] /\ Emit("poll", <<h>>, Pend, <<>>)
Call(h, k) ==
  /\ s.armed[h] /\ s.f[k].st = "none"
  /\ s' = [s EXCEPT !.armed[h] = FALSE, !.f[k] = [NoF EXCEPT !.st = "open", !.h = h]]
  /\ Emit("call", <<h, k>>, Ok, <<<<"call", h, k>>>>)
\* the inner service panics when it is called: nothing stays behind (maybe a request of no duration that failed)
Boom(h) ==
  /\ s.armed[h]
  /\ \E t \in {s, Observe(s, h, 0)} : s' = [t EXCEPT !.armed[h] = FALSE]
  /\ Emit("boom", <<h>>, <<"panic">>, <<<<"call", h, 0>>>>)
Resp(k) ==
  /\ s.f[k].st = "open"
  /\ LET x == s.f[k] IN
     CASE x.res = "open" -> s' = [s EXCEPT !.f[k].polled = TRUE, !.due = @ \ {C(k)}] /\ Emit("resp", <<k>>, Pend, <<>>)
       [] x.res = "err"  -> s' = Release(s, k) /\ Emit("resp", <<k>>, <<"err", "r7">>, <<>>)
       [] x.res = "panic" -> s' = Release(s, k) /\ Emit("resp", <<k>>, <<"panic">>, <<>>)
       [] x.res = "ok"   -> /\ s' = IF s.cfg.track = "resp" \/ s.cfg.what = "const" THEN Release(s, k)
                                    ELSE [s EXCEPT !.f[k] = [x EXCEPT !.st = "held"], !.due = @ \ {C(k)}]
                            /\ Emit("resp", <<k>>, <<"ok", 1000 + k>>, <<>>)
Drop(k) == s.f[k].st = "held" /\ s' = Release(s, k) /\ Emit("release", <<k>>, Ok, <<>>)
Finish(k, r) ==
  /\ s.f[k].st = "open" /\ s.f[k].res = "open"
  /\ s' = [s EXCEPT !.f[k].res = r, !.due = IF s.f[k].polled THEN @ \cup {C(k)} ELSE @]
  /\ Emit("finish", <<s.f[k].h, k, r>>, Ok, <<>>)
Cancel(k) ==
  /\ s.f[k].st = "open"
  /\ s' = Release(s, k) /\ Emit("cancel", <<k>>, Ok, <<<<"drop", s.f[k].h, k>>>>)
Mode(h, m) ==
  /\ h <= s.cfg.ns /\ s.mode[h] # m
  /\ s' = [s EXCEPT !.mode[h] = m, !.due = IF m # "pending" /\ s.wait[h] THEN @ \cup {H(h)} ELSE @, !.wait[h] = IF m = "pending" THEN @ ELSE FALSE]
  /\ Emit("mode", <<h, m>>, Ok, <<>>)
Advance(d) ==
  /\ s' = [s EXCEPT !.upd = [h \in HS |-> IF h <= s.cfg.ns /\ s.cfg.what = "ewma" THEN @[h] + d ELSE 0], !.t = Min(@ + d, MaxT),
                    !.f = [k \in KS |-> IF s.f[k].st = "none" THEN NoF ELSE [s.f[k] EXCEPT !.age = @ + d]]]
  /\ Emit("adv", <<d>>, Ok, <<>>)
\* the load: requests not completed yet; or the estimate, once per such request and once more (in units, rounded)
Load(h) ==
  /\ h <= s.cfg.ns
  /\ CASE s.cfg.what = "const" -> s' = s /\ Emit("load", <<h>>, <<"ok", 42>>, <<>>)
       [] s.cfg.what = "pending" -> s' = s /\ Emit("load", <<h>>, <<"ok", Cardinality(Held(s, h))>>, <<>>)
       [] s.cfg.what = "ewma" ->
          /\ s' = Observe(s, h, 0)
          /\ \E e \in -1..2 : Emit("load", <<h>>, <<"ok", Max(0, (s'.est[h] * (Cardinality(Held(s, h)) + 1)) \div U + e)>>, <<>>)
Do(op, a) ==
  \/ op = "poll" /\ Poll(a[1])
  \/ op = "call" /\ Call(a[1], a[2])
  \/ op = "boom" /\ Boom(a[1])
  \/ op = "resp" /\ Resp(a[1])
  \/ op = "release" /\ Drop(a[1])
  \/ op = "finish" /\ Finish(a[2], a[3])
  \/ op = "cancel" /\ Cancel(a[1])
  \/ op = "mode" /\ Mode(a[1], a[2])
  \/ op = "adv" /\ Advance(a[1])
  \/ op = "load" /\ Load(a[1])
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
FirstFree == {k \in KS : s.f[k].st = "none" /\ \A j \in KS : j < k => s.f[j].st # "none"}
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ /\ s.on
           /\ \/ \E h \in HS : Poll(h) \/ Load(h) \/ (\E k \in FirstFree : Call(h, k)) \/ (\E m \in Modes : Mode(h, m)) \/ ("panic" \in Rs /\ Boom(h))
              \/ \E k \in KS : Resp(k) \/ Cancel(k) \/ Drop(k) \/ \E r \in Rs : Finish(k, r)
              \/ s.t < MaxT /\ \E d \in Advs : Advance(d)
\* only the passing of time, a completed request or a larger round trip changes the estimate
Steady == [][s.on /\ s'.on /\ s'.est # s.est => ev'.op \in {"boot", "load", "resp", "cancel", "release", "boom"}]_<<s, ev>>
Peak == [][ev'.op \in {"cancel", "release"} => LET x == s.f[ev'.a[1]] IN
                   s'.est[x.h] >= Min(s.est[x.h], x.age * U) - 1 /\ s'.est[x.h] <= Max(s.est[x.h], x.age * U)]_<<s, ev>>
\* nothing that happens to one service changes the estimate of another
Apart == [][s.on /\ s'.on /\ ev'.op \in {"load", "poll", "call"} => \A h \in HS : h # ev'.a[1] => s'.est[h] = s.est[h]]_<<s, ev>>
Inv == s.on => \A h \in HS : s.est[h] >= 0
==============================================================================
