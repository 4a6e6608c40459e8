------------------------------ MODULE Reconnect ------------------------------
(* tower::reconnect::Reconnect.  The maker has its own readiness (mode[8]); the
   connection it makes is one of 1..3 in turn, each with its own readiness.
   A failed connection attempt is reported by the next request, a failed
   connection is replaced. *)
EXTENDS Common
CONSTANTS NK, MIds, Cfgs, Modes, MModes, Rs
VARIABLES s, ev
KS == 1..NK
MK == 8
TARGET == 5
Ids == {1, 2, 3, MK}

Off == [on |-> FALSE]
NoF == [st |-> "none", i |-> 0, req |-> 0, res |-> "open", polled |-> FALSE]
Start(c) == [on |-> TRUE, cfg |-> c,
             ph |-> IF c.kind = "with" THEN "connected" ELSE "idle",
             conn |-> IF c.kind = "with" THEN 1 ELSE 0, last |-> IF c.kind = "with" THEN 1 ELSE 3,
             err |-> FALSE,          \* a failed attempt, not reported yet
             ready |-> FALSE,        \* the last answer was "ready" and no request was made since
             armed |-> FALSE,        \* the connection has promised to take a request
             res |-> "open",         \* the attempt under way
             wait |-> "no",          \* what the caller sleeps on: no maker attempt conn
             mode |-> [i \in Ids |-> "ready"],
             f |-> [k \in KS |-> NoF], due |-> {}]
Emit(op, a, r, log) == ev' = Event(op, a, r, log, s'.due)
Boot(c) == s' = Start(c) /\ Emit("boot", <<c>>, Ok, <<>>)
After(n) == (n % 3) + 1

RECURSIVE Loop(_, _)
Loop(t, log) ==     \* <<t', result, log>>
  IF t.err THEN <<[t EXCEPT !.ready = TRUE], Ok, log>>
  ELSE CASE t.ph = "idle" ->
              (CASE t.mode[MK] = "err1" -> <<t, <<"err", "e1">>, log>>
                 [] t.mode[MK] = "pending" -> <<[t EXCEPT !.wait = "maker"], Pend, log>>
                 [] t.mode[MK] = "ready" -> Loop([t EXCEPT !.ph = "connecting", !.res = "open"], Append(log, <<"make", MK, TARGET>>)))
         [] t.ph = "connecting" ->
              (CASE t.res = "open" -> <<[t EXCEPT !.wait = "attempt"], Pend, log>>
                 [] t.res = "ok" -> Loop([t EXCEPT !.ph = "connected", !.last = After(@), !.conn = After(t.last), !.armed = FALSE], log)
                 [] t.res = "err" -> <<[t EXCEPT !.ph = "idle", !.err = TRUE, !.ready = TRUE], Ok, log>>)
         [] t.ph = "connected" ->
              (CASE t.mode[t.conn] = "err1" -> Loop([t EXCEPT !.ph = "idle", !.conn = 0, !.armed = FALSE], log)
                 [] t.mode[t.conn] = "pending" /\ ~t.armed -> <<[t EXCEPT !.wait = "conn"], Pend, log>>
                 [] OTHER -> <<[t EXCEPT !.armed = TRUE, !.ready = TRUE], Ok, log>>)
Poll ==
  LET y == Loop([s EXCEPT !.due = @ \ {H(1)}, !.wait = "no", !.ready = FALSE], <<>>)
  IN s' = y[1] /\ Emit("poll", <<1>>, y[2], y[3])
Call(k) ==
  /\ s.ready /\ s.f[k].st = "none"
  /\ IF s.err
     THEN /\ s' = [s EXCEPT !.err = FALSE, !.ready = FALSE, !.f[k] = [NoF EXCEPT !.st = "open", !.req = k, !.res = "fail"]]
          /\ Emit("call", <<1, k>>, Ok, <<>>)
     ELSE /\ s' = [s EXCEPT !.armed = FALSE, !.ready = FALSE, !.f[k] = [NoF EXCEPT !.st = "open", !.i = s.conn, !.req = k]]
          /\ Emit("call", <<1, k>>, Ok, <<<<"call", s.conn, k>>>>)
Resp(k) ==
  /\ s.f[k].st = "open"
  /\ LET x == s.f[k]
         t == [s EXCEPT !.due = @ \ {C(k)}] IN
     IF x.res = "open" THEN s' = [t EXCEPT !.f[k].polled = TRUE] /\ Emit("resp", <<k>>, Pend, <<>>)
     ELSE /\ s' = [t EXCEPT !.f[k] = NoF]
          /\ Emit("resp", <<k>>, IF x.res = "ok" THEN <<"ok", 1000 + x.req>> ELSE <<"err", "r7">>, <<>>)
Finish(k, r) ==
  /\ s.f[k].st = "open" /\ s.f[k].res = "open"
  /\ s' = [s EXCEPT !.f[k].res = r, !.due = IF s.f[k].polled THEN @ \cup {C(k)} ELSE @]
  /\ Emit("finish", <<s.f[k].i, s.f[k].req, r>>, Ok, <<>>)
FinishMake(r) ==
  /\ s.ph = "connecting" /\ s.res = "open"
  /\ s' = [s EXCEPT !.res = r, !.due = IF s.wait = "attempt" THEN @ \cup {H(1)} ELSE @]
  /\ Emit("finish", <<MK, TARGET, r>>, Ok, <<>>)
FinishReq(i, q, r) == IF i = MK THEN FinishMake(r) ELSE \E k \in KS : s.f[k].req = q /\ s.f[k].i = i /\ Finish(k, r)
Cancel(k) ==
  /\ s.f[k].st = "open"
  /\ s' = [s EXCEPT !.f[k] = NoF, !.due = @ \ {C(k)}]
  /\ Emit("cancel", <<k>>, Ok, IF s.f[k].res = "fail" THEN <<>> ELSE <<<<"drop", s.f[k].i, s.f[k].req>>>>)
Mode(i, m) ==
  /\ s.mode[i] # m
  /\ s' = [s EXCEPT !.mode[i] = m,
             !.due = IF m # "pending" /\ ((s.wait = "maker" /\ i = MK) \/ (s.wait = "conn" /\ i = s.conn))
                     THEN @ \cup {H(1)} ELSE @]
  /\ Emit("mode", <<i, m>>, Ok, <<>>)

Do(op, a) ==
  \/ op = "poll" /\ Poll
  \/ op = "call" /\ Call(a[2])
  \/ op = "resp" /\ Resp(a[1])
  \/ op = "finish" /\ FinishReq(a[1], a[2], a[3])
  \/ op = "cancel" /\ Cancel(a[1])
  \/ op = "mode" /\ Mode(a[1], a[2])
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
FirstFree == {k \in KS : s.f[k].st = "none" /\ \A j \in KS : j < k => s.f[j].st # "none"}
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ /\ s.on
           /\ \/ Poll \/ \E r \in {"ok", "err"} : FinishMake(r)
              \/ \E k \in FirstFree : Call(k)
              \/ \E k \in KS : Resp(k) \/ Cancel(k) \/ \E r \in Rs : Finish(k, r)
              \/ \E i \in MIds, m \in Modes : Mode(i, m)
              \/ \E m \in MModes : Mode(MK, m)
\* one attempt at a time, and only while there is no connection and no unreported failure
OneAttempt == [][ev'.op = "poll" /\ Len(ev'.log) > 0 =>
   Len(ev'.log) = 1 /\ ~s.err /\ (s.ph = "idle" \/ (s.ph # "idle" /\ s.ph # "connecting" /\ s.mode[s.conn] = "err1")
                                  \/ (s.ph = "connecting" /\ s.res = "ok" /\ s.mode[After(s.last)] = "err1"))]_<<s, ev>>
\* once ready, it stays ready (or fails) until a request is made
Sticky == [][ev'.op = "poll" /\ s.ready /\ s.err => ev'.r = Ok]_<<s, ev>>
\* every failed attempt is reported to exactly one request
Reported == [][ev'.op = "call" /\ s.err => ~s'.err /\ ev'.log = <<>>]_<<s, ev>>
Inv == s.on => /\ s.ready => (s.err \/ s.ph = "connected")
               /\ s.wait = "conn" => s.ph = "connected"
               /\ s.wait = "attempt" /\ s.res # "open" => H(1) \in s.due
==============================================================================
