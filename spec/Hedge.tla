-------------------------------- MODULE Hedge --------------------------------
(* tower::hedge::Hedge: a second attempt is sent when the first one has been
   outstanding for longer than a percentile of the latencies recorded during the
   previous period, if the policy could copy the request and there are enough data.
   Latencies: s.read is what decisions are based on, s.write what is being recorded;
   every cfg.per ms write becomes read.  Percentile cfg.pct.  Time passes in units of
   1/cfg.u ms; latencies are recorded in ms, rounded up; a timer never goes off early,
   and at the full millisecond at the latest. *)
EXTENDS Common
CONSTANTS NK, Cfgs, Modes, Rs, Advs, MaxCalls, MaxAge
VARIABLES s, ev
KS == 1..NK

RECURSIVE Insert(_, _)
Insert(q, v) == IF q = <<>> THEN <<v>> ELSE IF v <= Head(q) THEN <<v>> \o q ELSE <<Head(q)>> \o Insert(Tail(q), v)
RECURSIVE Sort(_)
Sort(q) == IF q = <<>> THEN <<>> ELSE Insert(Sort(Tail(q)), Head(q))
\* the histogram keeps three significant digits
RECURSIVE Gran(_)
Gran(v) == IF v < 2048 THEN 1 ELSE 2 * Gran(v \div 2)
\* and gives back the largest value of a bucket, except for percentile 0
Bucket(v, pct) == (v \div Gran(v)) * Gran(v) + (IF pct = 0 THEN 0 ELSE Gran(v) - 1)
Quantile(q, pct) == IF q = <<>> THEN 0
                    ELSE Bucket(q[Max(1, (pct * Len(q) + 99) \div 100)], pct)

Off == [on |-> FALSE]
NoA == [st |-> "none", age |-> 0, a |-> "open", b |-> "none", bage |-> 0, left |-> 0, polled |-> FALSE]
\* b: none delay ready held open ok err
Start(c) == [on |-> TRUE, cfg |-> c, read |-> Sort(c.lat), write |-> <<>>, el |-> 0,
             ready |-> FALSE, armed |-> FALSE, wait |-> FALSE, mode |-> "ready",
             f |-> [k \in KS |-> NoA], n |-> 0, due |-> {}]
Emit(op, a, r, log) == ev' = Event(op, a, r, log, s'.due)
Boot(c) == s' = Start(c) /\ Emit("boot", <<c>>, Ok, <<>>)
Late == 1 - s.cfg.u
Rotate(t) ==
  LET p == t.cfg.per * t.cfg.u
      r == t.el \div p IN
  CASE r = 0 -> t
    [] r = 1 -> [t EXCEPT !.read = t.write, !.write = <<>>, !.el = @ % p]
    [] r > 1 -> [t EXCEPT !.read = <<>>, !.write = <<>>, !.el = @ % p]
Record(t, v) == LET u == Rotate(t) IN [u EXCEPT !.write = Insert(@, (v + t.cfg.u - 1) \div t.cfg.u)]

Poll ==
  LET t == [s EXCEPT !.due = @ \ {H(1)}, !.wait = FALSE, !.ready = FALSE] IN
  IF s.mode = "err1" THEN s' = [t EXCEPT !.armed = FALSE] /\ Emit("poll", <<1>>, <<"err", "e1">>, <<>>)
  ELSE IF s.mode = "ready" \/ s.armed THEN s' = [t EXCEPT !.armed = TRUE, !.ready = TRUE] /\ Emit("poll", <<1>>, Ok, <<>>)
  ELSE s' = [t EXCEPT !.wait = TRUE] /\ Emit("poll", <<1>>, Pend, <<>>)
Call(k, cl) ==
  /\ s.ready /\ s.f[k].st = "none"
  /\ LET t == IF cl THEN Rotate(s) ELSE s
         second == cl /\ Len(t.read) >= s.cfg.min
         d == Quantile(t.read, s.cfg.pct) IN
     s' = [t EXCEPT !.ready = FALSE, !.armed = FALSE, !.n = @ + 1,
                    !.f[k] = [NoA EXCEPT !.st = "open", !.b = IF second THEN "delay" ELSE "none", !.left = IF second THEN d * s.cfg.u ELSE 0]]
  /\ Emit("call", <<1, k, cl>>, Ok, <<<<"call", k>>>>)
\* retry: what the policy answers if it is asked now
\* fire: the timer of the second attempt has gone off
Fires(x) == IF x.b # "delay" \/ x.left > 0 THEN {FALSE} ELSE IF x.left <= Late THEN {TRUE} ELSE BOOLEAN
Resp2(k, retry, fire) ==
  /\ s.f[k].st = "open"
  /\ LET x == s.f[k]
         t == [s EXCEPT !.due = @ \ {C(k)}]
         End(u, r, log) == s' = [u EXCEPT !.f[k] = NoA] /\ Emit("resp", <<k, retry>>, r, log)
         Stay(y, log) == s' = [t EXCEPT !.f[k] = [y EXCEPT !.polled = TRUE]] /\ Emit("resp", <<k, retry>>, Pend, log)
         due == fire \/ x.b = "ready"
         bDrop == IF x.b \in {"open", "ok", "err"} THEN <<<<"drop", k>>>> ELSE <<>>
         aDrop == <<<<"drop", k>>>>
     IN CASE x.a = "ok"  -> End(Record(t, x.age), <<"ok", 1000 + k>>, bDrop)
          [] x.a = "err" -> End(t, <<"err", "r7">>, bDrop)
          [] x.a = "open" /\ due /\ s.mode = "pending" -> Stay([x EXCEPT !.b = "ready", !.left = 0], <<>>)
          [] x.a = "open" /\ due /\ s.mode = "err1" -> End(t, <<"err", "e1">>, aDrop)
          [] x.a = "open" /\ due /\ s.mode = "ready" ->
               IF retry THEN Stay([x EXCEPT !.b = "open", !.left = 0, !.bage = 0], <<<<"hretry", k>>, <<"call", k>>>>)
               ELSE Stay([x EXCEPT !.b = "held", !.left = 0], <<<<"hretry", k>>>>)
          [] x.a = "open" /\ ~due /\ x.b = "ok" -> End(Record(t, x.bage), <<"ok", 1000 + k>>, aDrop)
          [] x.a = "open" /\ ~due /\ x.b = "err" -> End(t, <<"err", "r7">>, aDrop)
          [] OTHER -> Stay(x, <<>>)
Resp(k, retry) == \E fire \in Fires(s.f[k]) : Resp2(k, retry, fire)
Asks(k) == LET x == s.f[k] IN x.a = "open" /\ s.mode = "ready" /\ (x.b = "ready" \/ (x.b = "delay" /\ x.left <= 0))
\* which = 1: the oldest outstanding attempt
Finish(k, r, which) ==
  /\ s.f[k].st = "open"
  /\ LET x == s.f[k]
         open == (IF x.a = "open" THEN <<"a">> ELSE <<>>) \o (IF x.b = "open" THEN <<"b">> ELSE <<>>) IN
     /\ Len(open) >= which
     /\ s' = [s EXCEPT !.f[k].a = IF open[which] = "a" THEN r ELSE @, !.f[k].b = IF open[which] = "b" THEN r ELSE @,
                       !.due = IF x.polled THEN @ \cup {C(k)} ELSE @]
  /\ Emit("finish", <<0, k, r, which>>, Ok, <<>>)
Cancel(k) ==
  /\ s.f[k].st = "open"
  /\ s' = [s EXCEPT !.f[k] = NoA, !.due = @ \ {C(k)}]
  /\ LET x == s.f[k] IN
     Emit("cancel", <<k>>, Ok, (IF x.a = "none" THEN <<>> ELSE <<<<"drop", k>>>>) \o (IF x.b \in {"open", "ok", "err"} THEN <<<<"drop", k>>>> ELSE <<>>))
Mode(m) ==
  /\ s.mode # m
  /\ s' = [s EXCEPT !.mode = m,
             !.due = IF m = "pending" THEN @ ELSE @ \cup (IF s.wait THEN {H(1)} ELSE {})
                       \cup {C(k) : k \in {x \in KS : s.f[x].b = "ready" /\ s.f[x].polled}},
             !.wait = IF m = "pending" THEN @ ELSE FALSE]
  /\ Emit("mode", <<0, m>>, Ok, <<>>)
Advance(d) ==
  /\ LET p == s.cfg.per * s.cfg.u
         el == s.el + d
         Older(x) == IF x.st = "none" THEN x
                     ELSE [x EXCEPT !.age = @ + d, !.bage = IF x.b \in {"open", "ok"} THEN @ + d ELSE @,
                                    !.left = IF x.b = "delay" THEN Max(@ - d, Late) ELSE 0]
     IN s' = [s EXCEPT !.el = IF el >= 2 * p THEN 2 * p + (el % p) ELSE el,
                       !.f = [k \in KS |-> Older(s.f[k])],
                       !.due = @ \cup {C(k) : k \in {x \in KS : s.f[x].b = "delay" /\ s.f[x].polled /\ s.f[x].left - d <= Late}}]
  /\ Emit("adv", <<d>>, Ok, <<>>)

Do(op, a) ==
  \/ op = "poll" /\ Poll
  \/ op = "call" /\ Call(a[2], a[3])
  \/ op = "resp" /\ Resp(a[1], a[2])
  \/ op = "finish" /\ Finish(a[2], a[3], a[4])
  \/ op = "cancel" /\ Cancel(a[1])
  \/ op = "mode" /\ Mode(a[2])
  \/ op = "adv" /\ Advance(a[1])
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
FirstFree == {k \in KS : s.f[k].st = "none" /\ \A j \in KS : j < k => s.f[j].st # "none"}
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ /\ s.on
           /\ \/ Poll
              \/ \E k \in FirstFree, cl \in BOOLEAN : s.n < MaxCalls /\ Call(k, cl)
              \/ \E k \in KS : \/ (\E b \in (IF Asks(k) THEN BOOLEAN ELSE {TRUE}) : Resp(k, b))
                               \/ Cancel(k) \/ \E r \in Rs, w \in {1, 2} : Finish(k, r, w)
              \/ \E m \in Modes : Mode(m)
              \/ \E d \in Advs : (\A k \in KS : s.f[k].age + d <= MaxAge) /\ Advance(d)
\* a second attempt: only for a copied request, only when its delay has passed, and the policy agreed
SecondJustified == [][ev'.op = "resp" /\ (\E i \in 1..Len(ev'.log) : ev'.log[i][1] = "call") =>
   LET x == s.f[ev'.a[1]] IN x.b \in {"delay", "ready"} /\ x.left <= 0 /\ x.a = "open" /\ ev'.a[2]]_<<s, ev>>
AtMostTwo == [][ev'.op = "resp" => Cardinality({i \in 1..Len(ev'.log) : ev'.log[i][1] = "call"}) <= 1]_<<s, ev>>
NoSecondWithoutData == [][ev'.op = "call" => LET x == s'.f[ev'.a[2]] IN x.b = "delay" => ev'.a[3] /\ Len(s'.read) >= s.cfg.min]_<<s, ev>>
Inv == s.on => \A k \in KS : LET x == s.f[k] IN
          /\ x.st = "open" /\ x.polled /\ x.a # "open" => C(k) \in s.due
          /\ x.st = "open" /\ x.polled /\ x.b \in {"ok", "err"} => C(k) \in s.due
          /\ x.st = "open" /\ x.polled /\ x.b = "delay" /\ x.left = Late => C(k) \in s.due
==============================================================================
