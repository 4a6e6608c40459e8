-------------------------------- MODULE TestMock --------------------------------
(* tower_test::mock: a mock service (clones h) whose requests a test handle receives
   in order and answers. The handle bounds the requests (allow), fails the next
   readiness check (send_error), and closes the mock when it is dropped.
   A request k is in the queue, taken by the test (which holds its SendResponse), or
   neither; its response future lives apart from that.                            *)
EXTENDS Common
CONSTANTS NH, NK, Cfgs, Allows
VARIABLES s, ev
HS == 1..NH
KS == 1..NK
Unbounded == 1000000   \* 2^64 - 1, which no run uses up
Off == [on |-> FALSE]
Start(c) == [on |-> TRUE, cfg |-> c,
             st |-> [h \in HS |-> h = 1], can |-> [h \in HS |-> FALSE],
             rem |-> Unbounded, open |-> TRUE, err |-> FALSE,
             wait |-> {},                             \* handles whose last check was refused
             q |-> <<>>, taken |-> {},
             fut |-> [k \in KS |-> "none"],           \* none open polled: of the response futures
             res |-> [k \in KS |-> "open"],           \* open ok err closed
             due |-> {}]
Emit(op, a, r, log) == ev' = Event(op, a, r, log, s'.due)
Boot(c) == s' = Start(c) /\ Emit("boot", <<c>>, Ok, <<>>)
Closed == <<"err", "closed">>

Poll(h) ==
  /\ s.st[h]
  /\ LET t == [s EXCEPT !.due = @ \ {H(h)}, !.wait = @ \ {h}] IN
     IF ~s.open THEN s' = t /\ Emit("poll", <<h>>, Closed, <<>>)
     ELSE IF s.err THEN s' = [t EXCEPT !.err = FALSE] /\ Emit("poll", <<h>>, <<"err", "sent">>, <<>>)
     ELSE IF s.can[h] \/ s.rem > 0 THEN s' = [t EXCEPT !.can[h] = TRUE] /\ Emit("poll", <<h>>, Ok, <<>>)
     ELSE s' = [t EXCEPT !.wait = @ \cup {h}] /\ Emit("poll", <<h>>, Pend, <<>>)
\* once it was ready a call succeeds, unless the mock has been closed since
Call(h, k) ==
  /\ s.st[h] /\ s.fut[k] = "none" /\ ~InSeq(k, s.q) /\ k \notin s.taken
  /\ s.can[h] \/ ~s.open
  /\ IF ~s.open THEN s' = [s EXCEPT !.fut[k] = "open", !.res[k] = "closed"]
     ELSE s' = [s EXCEPT !.can[h] = FALSE, !.rem = IF @ = Unbounded THEN @ ELSE Max(@ - 1, 0), !.q = Append(@, k), !.fut[k] = "open", !.res[k] = "open"]
  /\ Emit("call", <<h, k>>, Ok, <<>>)
\* a call without readiness is a bug of the caller, which the mock reports by a panic; the run ends
Misuse(h) ==
  /\ s.st[h] /\ ~s.can[h] /\ s.open
  /\ s' = Off
  /\ ev' = Event("misuse", <<h>>, <<"panic">>, <<>>, {})
Next_(how) ==
  /\ s.open
  /\ IF s.q # <<>> THEN s' = [s EXCEPT !.q = Tail(@), !.taken = @ \cup {Head(s.q)}] /\ Emit("next", <<how>>, <<"req", Head(s.q)>>, <<>>)
     ELSE s' = s /\ Emit("next", <<how>>, IF \E h \in HS : s.st[h] THEN Pend ELSE <<"end">>, <<>>)
Set(k, r) == [s EXCEPT !.taken = @ \ {k}, !.res[k] = IF s.fut[k] # "none" THEN r ELSE "open",
                       !.due = IF s.fut[k] = "polled" THEN @ \cup {C(k)} ELSE @]
Respond(k, r) ==
  /\ k \in s.taken
  /\ s' = Set(k, IF r = "drop" THEN "closed" ELSE r)
  /\ Emit("respond", <<k, r>>, Ok, <<>>)
Resp(k) ==
  /\ s.fut[k] # "none"
  /\ LET t == [s EXCEPT !.due = @ \ {C(k)}]  d == [t EXCEPT !.fut[k] = "none", !.res[k] = "open"] IN
     CASE s.res[k] = "open" -> s' = [t EXCEPT !.fut[k] = "polled"] /\ Emit("resp", <<k>>, Pend, <<>>)
       [] s.res[k] = "ok" -> s' = d /\ Emit("resp", <<k>>, <<"ok", 1000 + k>>, <<>>)
       [] s.res[k] = "err" -> s' = d /\ Emit("resp", <<k>>, <<"err", "r7">>, <<>>)
       [] s.res[k] = "closed" -> s' = d /\ Emit("resp", <<k>>, Closed, <<>>)
Cancel(k) ==
  /\ s.fut[k] # "none"
  /\ s' = [s EXCEPT !.fut[k] = "none", !.res[k] = "open", !.due = @ \ {C(k)}]
  /\ Emit("cancel", <<k>>, Ok, <<>>)
Woken == {H(h) : h \in s.wait}
Allow(n) ==
  /\ s.open
  /\ s' = [s EXCEPT !.rem = n, !.due = IF n > 0 THEN @ \cup Woken ELSE @, !.wait = IF n > 0 THEN {} ELSE @]
  /\ Emit("allow", <<n>>, Ok, <<>>)
SendError ==
  /\ s.open
  /\ s' = [s EXCEPT !.err = TRUE, !.due = @ \cup Woken, !.wait = {}]
  /\ Emit("fail", <<>>, Ok, <<>>)
\* the test drops its handle: what it has not taken is closed
DropHandle ==
  /\ s.open
  /\ s' = [s EXCEPT !.open = FALSE, !.q = <<>>, !.wait = {},
                    !.res = [k \in KS |-> IF InSeq(k, s.q) /\ s.fut[k] # "none" THEN "closed" ELSE s.res[k]],
                    !.due = @ \cup Woken \cup {C(k) : k \in {x \in KS : InSeq(x, s.q) /\ s.fut[x] = "polled"}}]
  /\ Emit("close", <<>>, Ok, <<>>)
Clone(h, h2) ==
  /\ s.st[h] /\ ~s.st[h2] /\ \A i \in HS : i < h2 => s.st[i]
  /\ s' = [s EXCEPT !.st[h2] = TRUE, !.can[h2] = FALSE]
  /\ Emit("clone", <<h, h2>>, Ok, <<>>)
Drop(h) ==
  /\ s.st[h]
  /\ s' = [s EXCEPT !.st[h] = FALSE, !.can[h] = FALSE, !.wait = @ \ {h}, !.due = @ \ {H(h)}]
  /\ Emit("drop", <<h>>, Ok, <<>>)

Do(op, a) ==
  \/ op = "poll" /\ Poll(a[1])
  \/ op = "call" /\ Call(a[1], a[2])
  \/ op = "misuse" /\ Misuse(a[1])
  \/ op = "next" /\ Next_(a[1])
  \/ op = "respond" /\ Respond(a[1], a[2])
  \/ op = "resp" /\ Resp(a[1])
  \/ op = "cancel" /\ Cancel(a[1])
  \/ op = "allow" /\ Allow(a[1])
  \/ op = "fail" /\ SendError
  \/ op = "close" /\ DropHandle
  \/ op = "clone" /\ Clone(a[1], a[2])
  \/ op = "drop" /\ Drop(a[1])
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
Free(k) == s.fut[k] = "none" /\ ~InSeq(k, s.q) /\ k \notin s.taken
FirstFree == {k \in KS : Free(k) /\ \A j \in KS : j < k => ~Free(j)}
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ /\ s.on
           /\ \/ \E h \in HS : Poll(h) \/ Misuse(h) \/ Drop(h) \/ (\E h2 \in HS : Clone(h, h2)) \/ \E k \in FirstFree : Call(h, k)
              \/ \E k \in KS : Resp(k) \/ Cancel(k) \/ \E r \in {"ok", "err", "drop"} : Respond(k, r)
              \/ \E how \in {"poll", "await"} : Next_(how)
              \/ \E n \in Allows : Allow(n)
              \/ SendError \/ DropHandle
\* nothing is told ready once the allowance is used up, unless it had been told before
Bound == [][s.on /\ ev'.op = "poll" /\ ev'.r = Ok => s.open /\ (s.rem > 0 \/ s.can[ev'.a[1]])]_<<s, ev>>
Inv == s.on => /\ \A k \in s.taken : ~InSeq(k, s.q)
               /\ ~s.open => s.q = <<>> /\ s.wait = {}
               /\ s.wait # {} => s.rem = 0
=================================================================================
