--------------------------------- MODULE Retry ---------------------------------
(* tower::retry::Retry with an arbitrary policy.  The environment decides what
   the policy answers (p.dec), whether it can copy a request (s.cl) and whether
   the future it returns is ready at once (s.late).
   Each request gets its own copy of the policy: att counts the decisions that
   copy has taken, n how often it was asked for a copy (capped at 3). *)
EXTENDS Common
CONSTANTS NH, NK, Cfgs, Modes, Rs, Decs, Lates
VARIABLES s, ev
HS == 1..NH
KS == 1..NK
Cap(n) == Min(n, 3)

Off == [on |-> FALSE]
Idle == [ph |-> "none", req |-> 0, kept |-> FALSE, att |-> 0, n |-> 0, res |-> "open", wdone |-> FALSE, polled |-> FALSE]
Start(c) == [on |-> TRUE, cfg |-> c,
             st |-> [h \in HS |-> h = 1],
             armed |-> [h \in HS |-> FALSE],
             iwait |-> [h \in HS |-> FALSE],
             pn |-> [h \in HS |-> 0],      \* copies asked of the policy of this handle (capped at 3)
             mode |-> "ready",
             c |-> [k \in KS |-> Idle],     \* ph: none called waiting retrying
             due |-> {}]
Emit(op, a, r, log) == ev' = Event(op, a, r, log, s'.due)
Boot(c) == s' = Start(c) /\ Emit("boot", <<c>>, Ok, <<>>)

Poll(h) ==
  /\ s.st[h]
  /\ LET t == [s EXCEPT !.due = @ \ {H(h)}, !.iwait[h] = FALSE] IN
     IF s.mode = "err1" THEN s' = [t EXCEPT !.armed[h] = FALSE] /\ Emit("poll", <<h>>, <<"err", "e1">>, <<>>)
     ELSE IF s.mode = "ready" \/ s.armed[h] THEN s' = [t EXCEPT !.armed[h] = TRUE] /\ Emit("poll", <<h>>, Ok, <<>>)
     ELSE s' = [t EXCEPT !.iwait[h] = TRUE] /\ Emit("poll", <<h>>, Pend, <<>>)
Call(h, k, cl) ==
  /\ s.st[h] /\ s.armed[h] /\ s.c[k].ph = "none"
  /\ LET n == Cap(s.pn[h] + 1) IN
     /\ s' = [s EXCEPT !.armed[h] = FALSE, !.pn[h] = n,
                       !.c[k] = [Idle EXCEPT !.ph = "called", !.req = k, !.kept = cl, !.n = n]]
     /\ Emit("call", <<h, k, cl>>, Ok, <<<<"pclone", k, n>>, <<"call", k>>>>)

Answer(x) == IF x.res = "ok" THEN <<"ok", 1000 + x.req>> ELSE <<"err", "r7">>
RECURSIVE Loop(_, _, _)
Loop(x, log, p) ==   \* x: one request's state, p: the policy; <<x', result, log>>
  CASE x.ph = "called" /\ x.res = "open" -> <<[x EXCEPT !.polled = TRUE], Pend, log>>
    [] x.ph = "called" /\ x.res # "open" /\ ~x.kept -> <<Idle, Answer(x), log>>
    [] x.ph = "called" /\ x.res # "open" /\ x.kept ->
         LET y == [x EXCEPT !.att = Cap(@ + 1)]
             l == Append(log, <<"pretry", x.req, y.att, x.res>>) IN
         (CASE p.dec = "stop" -> <<Idle, Answer(x), l>>
           [] p.dec = "swap" -> <<Idle, <<"ok", 5000>>, l>>
           [] p.dec = "retry" -> Loop([y EXCEPT !.ph = "waiting", !.wdone = ~p.late], l, p)
           [] p.dec = "mut" -> Loop([y EXCEPT !.ph = "waiting", !.wdone = ~p.late,
                                              !.req = IF @ < 100 THEN @ + 100 ELSE @], l, p))
    [] x.ph = "waiting" /\ ~x.wdone -> <<[x EXCEPT !.polled = TRUE], Pend, log>>
    [] x.ph = "waiting" /\ x.wdone -> Loop([x EXCEPT !.ph = "retrying"], log, p)
    [] x.ph = "retrying" ->
         (CASE s.mode = "err1" -> <<Idle, <<"err", "e1">>, log>>
           [] s.mode = "pending" -> <<[x EXCEPT !.polled = TRUE], Pend, log>>
           [] s.mode = "ready" -> Loop([x EXCEPT !.ph = "called", !.res = "open", !.kept = p.cl, !.n = Cap(@ + 1)],
                                       log \o <<<<"pclone", x.req, Cap(x.n + 1)>>, <<"call", x.req>>>>, p))
Resp(k, d, cl, late) ==
  /\ s.c[k].ph # "none"
  /\ LET y == Loop([s.c[k] EXCEPT !.polled = FALSE], <<>>, [dec |-> d, cl |-> cl, late |-> late]) IN
     /\ s' = [s EXCEPT !.c[k] = y[1], !.due = @ \ {C(k)}]
     /\ Emit("resp", <<k, d, cl, late>>, y[2], y[3])
Wake(t, ks) == [t EXCEPT !.due = @ \cup {C(k) : k \in {x \in ks : s.c[x].polled}}]
Finish(k, r) ==
  /\ s.c[k].ph = "called" /\ s.c[k].res = "open"
  /\ s' = Wake([s EXCEPT !.c[k].res = r], {k})
  /\ Emit("finish", <<0, s.c[k].req, r>>, Ok, <<>>)
FinishReq(q, r) == \E k \in KS : s.c[k].ph # "none" /\ s.c[k].req = q /\ Finish(k, r)
\* the future returned by the policy completes
PolicyDone(k) ==
  /\ s.c[k].ph = "waiting" /\ ~s.c[k].wdone
  /\ s' = Wake([s EXCEPT !.c[k].wdone = TRUE], {k})
  /\ Emit("pdone", <<k>>, Ok, <<>>)
Cancel(k) ==
  /\ s.c[k].ph # "none"
  /\ s' = [s EXCEPT !.c[k] = Idle, !.due = @ \ {C(k)}]
  /\ Emit("cancel", <<k>>, Ok, IF s.c[k].ph = "called" THEN <<<<"drop", s.c[k].req>>>> ELSE <<>>)
Clone(h, h2) ==
  /\ s.st[h] /\ ~s.st[h2] /\ \A i \in HS : i < h2 => s.st[i]
  /\ s' = [s EXCEPT !.st[h2] = TRUE, !.armed[h2] = FALSE, !.iwait[h2] = FALSE, !.pn[h2] = s.pn[h]]
  /\ Emit("clone", <<h, h2>>, Ok, <<>>)
Mode(m) ==
  /\ s.mode # m
  /\ s' = [s EXCEPT !.mode = m,
             !.due = IF m = "pending" THEN @ ELSE @ \cup {H(h) : h \in {x \in HS : s.iwait[x]}}
                        \cup {C(k) : k \in {x \in KS : s.c[x].ph = "retrying" /\ s.c[x].polled}},
             !.iwait = IF m = "pending" THEN @ ELSE [h \in HS |-> FALSE]]
  /\ Emit("mode", <<0, m>>, Ok, <<>>)
\* the answers of the policy that can make a difference to this poll
Asked(k) == s.c[k].ph = "called" /\ s.c[k].res # "open" /\ s.c[k].kept
Copies(k) == s.mode = "ready" /\ (Asked(k) \/ s.c[k].ph = "retrying" \/ (s.c[k].ph = "waiting" /\ s.c[k].wdone))
Polls(k) == IF Asked(k)
            THEN \E d \in Decs : IF d \in {"retry", "mut"} THEN \E cl \in (IF Copies(k) THEN BOOLEAN ELSE {TRUE}), l \in Lates : Resp(k, d, cl, l)
                                 ELSE Resp(k, d, TRUE, FALSE)
            ELSE \E cl \in (IF Copies(k) THEN BOOLEAN ELSE {TRUE}) : Resp(k, "stop", cl, FALSE)

Do(op, a) ==
  \/ op = "poll" /\ Poll(a[1])
  \/ op = "call" /\ Call(a[1], a[2], a[3])
  \/ op = "resp" /\ Resp(a[1], a[2], a[3], a[4])
  \/ op = "finish" /\ FinishReq(a[2], a[3])
  \/ op = "pdone" /\ PolicyDone(a[1])
  \/ op = "cancel" /\ Cancel(a[1])
  \/ op = "clone" /\ Clone(a[1], a[2])
  \/ op = "mode" /\ Mode(a[2])
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
FirstFree == {k \in KS : s.c[k].ph = "none" /\ \A j \in KS : j < k => s.c[j].ph # "none"}
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ /\ s.on
           /\ \/ \E h \in HS : Poll(h) \/ (\E h2 \in HS : Clone(h, h2)) \/ \E k \in FirstFree, cl \in BOOLEAN : Call(h, k, cl)
              \/ \E k \in KS : Polls(k) \/ Cancel(k) \/ PolicyDone(k) \/ \E r \in Rs : Finish(k, r)
              \/ \E m \in Modes : Mode(m)

\* an attempt is made only if the policy asked for it, with a request the policy copied
Decided(log, i) == i > 1 /\ log[i - 1][1] = "pclone" /\ log[i - 1][2] = log[i][2]
AttemptsAreDecided == [][ev'.op = "resp" =>
   \A i \in 1..Len(ev'.log) : ev'.log[i][1] = "call" =>
     /\ Decided(ev'.log, i)
     /\ s.c[ev'.a[1]].kept \/ s.c[ev'.a[1]].ph \in {"waiting", "retrying"}
     /\ s.c[ev'.a[1]].ph \in {"waiting", "retrying"} \/ \E j \in 1..i : ev'.log[j][1] = "pretry"]_<<s, ev>>
\* the caller gets exactly one answer, and never while an attempt is still running
OneAnswer == [][ev'.op = "resp" /\ ev'.r # Pend => s'.c[ev'.a[1]].ph = "none"]_<<s, ev>>
\* the policy is asked exactly once per finished attempt
AskedOnce == [][ev'.op = "resp" => Cardinality({i \in 1..Len(ev'.log) : ev'.log[i][1] = "pretry"}) <= 1]_<<s, ev>>
Sleepers == s.on => \A k \in KS : s.c[k].polled =>
   \/ C(k) \in s.due
   \/ s.c[k].ph = "called" /\ s.c[k].res = "open"
   \/ s.c[k].ph = "waiting" /\ ~s.c[k].wdone
   \/ s.c[k].ph = "retrying" /\ s.mode = "pending"
Inv == Sleepers
===============================================================================
