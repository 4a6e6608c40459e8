-------------------------------- MODULE Buffer --------------------------------
(* tower::buffer: handles (clones) 1..NH, response futures 1..NK, one worker task
   owning the inner service.  Slots: a handle reserves one in poll_ready, gives
   it to its message in call; it is free again when the worker takes the message. *)
EXTENDS Common
CONSTANTS NH, NK, Cfgs, Modes, Rs, Kill
VARIABLES s, ev

HS == 1..NH
KS == 1..NK
W  == "w"

Off == [on |-> FALSE]
Start(c) ==
  [on |-> TRUE, cfg |-> c,
   st |-> [h \in HS |-> IF h = 1 THEN "idle" ELSE "none"],  \* none idle wait got held
   armed |-> [h \in HS |-> FALSE],    \* last poll_ready said Ready and call has not consumed it
   avail |-> c.bound, q |-> <<>>,
   chan |-> <<>>, cur |-> 0,
   req |-> [k \in KS |-> "none"],     \* none queued cancelled inner fin_ok fin_err failed closed
   polled |-> [k \in KS |-> FALSE],   \* the response future is waiting
   w |-> "run",                       \* run gone
   wreg |-> "none",                   \* what the worker is waiting for: none rx inner
   failed |-> "no",
   mode |-> "ready", iarmed |-> FALSE,
   due |-> {W}]

Emit(op, a, r, log) == ev' = Event(op, a, r, log, IF s'.on /\ s'.wreg = "none" THEN s'.due \ {W} ELSE s'.due)
Boot(c) == /\ s' = Start(c) /\ Emit("boot", <<c>>, Ok, <<>>)

Closed == s.failed # "no" \/ s.w # "run"
NoHandles(t) == \A h \in HS : t.st[h] = "none"
Outstanding(t) == Cardinality({h \in HS : t.st[h] \in {"held", "got"}})

\* a slot becomes free: the longest waiting handle gets it
Free(t) ==
  IF t.q = <<>> THEN [t EXCEPT !.avail = @ + 1]
  ELSE LET h == Head(t.q) IN [t EXCEPT !.q = Tail(@), !.st[h] = "got", !.due = @ \cup {H(h)}]

\* the buffer stops accepting: everyone waiting for a slot is told
Close(t) == [t EXCEPT !.due = @ \cup {H(t.q[i]) : i \in 1..Len(t.q)}, !.q = <<>>]

Told(t, k) == [t EXCEPT !.due = IF t.polled[k] THEN @ \cup {C(k)} ELSE @, !.polled[k] = FALSE]

\* the worker is dropped (finished, aborted or panicked): every request it had not yet dispatched is refused
RECURSIVE RefuseAll(_, _)
RefuseAll(t, ks) ==
  IF ks = <<>> THEN t
  ELSE LET k == Head(ks) IN
       RefuseAll(IF t.req[k] = "cancelled" THEN [t EXCEPT !.req[k] = "none"]
                 ELSE Told([t EXCEPT !.req[k] = "closed"], k), Tail(ks))
WorkerGone(t) ==
  LET ks == (IF t.cur # 0 THEN <<t.cur>> ELSE <<>>) \o t.chan
      t1 == RefuseAll(t, ks)
  IN Close([t1 EXCEPT !.chan = <<>>, !.cur = 0, !.w = "gone", !.wreg = "none", !.due = @ \ {W}])

\* run the worker until it has to wait; result <<state, log, outcome>>
RECURSIVE Run(_, _)
Process(t, k, log) ==
  IF t.failed # "no" THEN <<"go", Told([t EXCEPT !.req[k] = "failed"], k), log>>
  ELSE IF t.mode = "err1" THEN <<"go", Told(Close([t EXCEPT !.failed = "e1", !.req[k] = "failed", !.iarmed = FALSE]), k), log>>
  ELSE IF t.mode = "pending" /\ ~t.iarmed THEN <<"wait", [t EXCEPT !.cur = k, !.wreg = "inner"], log>>
  ELSE IF t.mode = "panic" THEN <<"panic", WorkerGone(Told([t EXCEPT !.req[k] = "closed"], k)), Append(log, <<"call", k>>)>>
  ELSE <<"go", Told([t EXCEPT !.req[k] = "inner", !.iarmed = FALSE], k), Append(log, <<"call", k>>)>>
Step(t, log) ==
  IF t.cur # 0 /\ t.req[t.cur] = "cancelled" THEN <<"go", [t EXCEPT !.cur = 0, !.req[t.cur] = "none"], log>>
  ELSE IF t.cur # 0 THEN Process([t EXCEPT !.cur = 0], t.cur, log)
  ELSE IF t.chan # <<>> THEN
       LET k == Head(t.chan)  t1 == Free([t EXCEPT !.chan = Tail(@)]) IN
       IF t.req[k] = "cancelled" THEN <<"go", [t1 EXCEPT !.req[k] = "none"], log>>
       ELSE Process(t1, k, log)
  ELSE IF NoHandles(t) \/ (t.failed # "no" /\ Outstanding(t) = 0) THEN <<"done", WorkerGone(t), log>>
  ELSE <<"wait", [t EXCEPT !.wreg = "rx"], log>>
Run(t, log) == LET x == Step(t, log) IN IF x[1] = "go" THEN Run(x[2], x[3]) ELSE x

\* the last slot that a failed buffer had given out is back: its worker may end
LastSlot(t) == IF t.failed # "no" /\ t.wreg = "rx" /\ t.chan = <<>> /\ Outstanding(t) = 0 THEN [t EXCEPT !.due = @ \cup {W}] ELSE t
\* (whether a slot that it had given out keeps it alive is open: nothing can come of it but the same failure)
MayEnd(t) == t.failed # "no" /\ t.wreg = "rx"
PollWorker ==
  /\ s.w = "run"
  /\ LET x == Run([s EXCEPT !.due = @ \ {W}, !.wreg = "none"], <<>>)
         out == {x} \cup (IF x[1] = "wait" /\ MayEnd(x[2]) THEN {<<"done", WorkerGone(x[2]), x[3]>>} ELSE {}) IN
     \E y \in out :
       /\ s' = y[2]
       /\ Emit("worker", <<>>, IF y[1] = "wait" THEN Pend ELSE <<y[1]>>, y[3])

\* the worker task is dropped by its runtime
KillWorker ==
  /\ Kill /\ s.w = "run"
  /\ s' = WorkerGone(s) /\ Emit("kill", <<>>, Ok, <<>>)

PollReady(h) ==
  /\ s.st[h] # "none"
  /\ LET t0 == [s EXCEPT !.due = @ \ {H(h)}] IN
     IF Closed
     THEN /\ s' = [t0 EXCEPT !.armed[h] = FALSE]
          /\ Emit("poll", <<h>>, IF s.failed # "no" THEN <<"err", "service", "e1">> ELSE <<"err", "closed">>, <<>>)
     ELSE IF t0.st[h] \in {"held", "got"} \/ (t0.st[h] = "idle" /\ t0.avail > 0)
     THEN /\ s' = [t0 EXCEPT !.st[h] = "held", !.armed[h] = TRUE,
                             !.avail = IF t0.st[h] = "idle" THEN @ - 1 ELSE @]
          /\ Emit("poll", <<h>>, Ok, <<>>)
     ELSE /\ s' = IF t0.st[h] = "idle" THEN [t0 EXCEPT !.st[h] = "wait", !.q = Append(@, h)] ELSE t0
          /\ Emit("poll", <<h>>, Pend, <<>>)

Call(h, k) ==
  /\ s.st[h] = "held" /\ s.armed[h] /\ s.req[k] = "none"
  /\ LET t == [s EXCEPT !.st[h] = "idle", !.armed[h] = FALSE, !.polled[k] = FALSE] IN
     \/ /\ s.w = "run"
        /\ s' = [t EXCEPT !.chan = Append(@, k), !.req[k] = "queued",
                          !.due = IF s.wreg = "rx" THEN @ \cup {W} ELSE @]
     \/ \* the buffer failed in the meantime: the request is refused at once
        /\ Closed
        /\ s' = LastSlot(Free([t EXCEPT !.req[k] = IF s.failed # "no" THEN "failed" ELSE "closed"]))
  /\ Emit("call", <<h, k>>, Ok, <<>>)

PollResp(k) ==
  /\ s.req[k] \in {"queued", "inner", "fin_ok", "fin_err", "failed", "closed"}
  /\ LET t == [s EXCEPT !.due = @ \ {C(k)}]
         done == [t EXCEPT !.req[k] = "none", !.polled[k] = FALSE] IN
     CASE s.req[k] \in {"queued", "inner"} -> s' = [t EXCEPT !.polled[k] = TRUE] /\ Emit("resp", <<k>>, Pend, <<>>)
       [] s.req[k] = "fin_ok"  -> s' = done /\ Emit("resp", <<k>>, <<"ok", 1000 + k>>, <<>>)
       [] s.req[k] = "fin_err" -> s' = done /\ Emit("resp", <<k>>, <<"err", "r7">>, <<>>)
       [] s.req[k] = "failed"  -> s' = done /\ Emit("resp", <<k>>, <<"err", "service", "e1">>, <<>>)
       [] s.req[k] = "closed"  -> s' = done /\ Emit("resp", <<k>>, <<"err", "closed">>, <<>>)

Cancel(k) ==
  /\ s.req[k] \in {"queued", "inner", "fin_ok", "fin_err", "failed", "closed"}
  /\ s' = [s EXCEPT !.req[k] = IF s.req[k] = "queued" THEN "cancelled" ELSE "none",
                    !.polled[k] = FALSE, !.due = @ \ {C(k)}]
  /\ Emit("cancel", <<k>>, Ok, IF s.req[k] \in {"inner", "fin_ok", "fin_err"} THEN <<<<"drop", k>>>> ELSE <<>>)

Finish(k, r) ==
  /\ s.req[k] = "inner"
  /\ s' = Told([s EXCEPT !.req[k] = "fin_" \o r], k)
  /\ Emit("finish", <<k, r>>, Ok, <<>>)

Clone(h, h2) ==
  /\ s.st[h] # "none" /\ s.st[h2] = "none" /\ \A i \in HS : i < h2 => s.st[i] # "none"
  /\ s' = [s EXCEPT !.st[h2] = "idle", !.armed[h2] = FALSE]
  /\ Emit("clone", <<h, h2>>, Ok, <<>>)

DropHandle(h) ==
  /\ s.st[h] # "none"
  /\ LET t == [s EXCEPT !.st[h] = "none", !.armed[h] = FALSE, !.q = Without(@, h), !.due = @ \ {H(h)}]
         t1 == IF s.st[h] \in {"got", "held"} THEN LastSlot(Free(t)) ELSE t
     IN s' = IF NoHandles(t1) /\ s.wreg = "rx" THEN [t1 EXCEPT !.due = @ \cup {W}] ELSE t1
  /\ Emit("drop", <<h>>, Ok, <<>>)

Mode(m) ==
  /\ s.mode # m
  /\ s' = [s EXCEPT !.mode = m, !.due = IF m # "pending" /\ s.wreg = "inner" THEN @ \cup {W} ELSE @]
  /\ Emit("mode", <<m>>, Ok, <<>>)

Do(op, a) ==
  \/ op = "worker" /\ PollWorker
  \/ op = "kill" /\ KillWorker
  \/ op = "poll" /\ PollReady(a[1])
  \/ op = "call" /\ Call(a[1], a[2])
  \/ op = "finish" /\ Finish(a[1], a[2])
  \/ op = "resp" /\ PollResp(a[1])
  \/ op = "cancel" /\ Cancel(a[1])
  \/ op = "clone" /\ Clone(a[1], a[2])
  \/ op = "drop" /\ DropHandle(a[1])
  \/ op = "mode" /\ Mode(a[1])

Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
FirstFree == {k \in KS : s.req[k] = "none" /\ \A j \in KS : j < k => s.req[j] # "none"}
Next ==
  \/ ~s.on /\ \E c \in Cfgs : Boot(c)
  \/ /\ s.on
     /\ \/ PollWorker \/ KillWorker
        \/ \E h \in HS : PollReady(h) \/ DropHandle(h)
        \/ \E h \in HS : \E k \in FirstFree : Call(h, k)
        \/ \E k \in KS : PollResp(k) \/ Cancel(k) \/ \E r \in Rs : Finish(k, r)
        \/ \E h, h2 \in HS : Clone(h, h2)
        \/ \E m \in Modes : Mode(m)

-------------------------------------------------------------------------------
\* capacity: requests admitted and not yet taken by the worker never exceed the bound
CapacityRespected == s.on => Outstanding(s) + Len(s.chan) <= s.cfg.bound
SlotsConserved == s.on /\ s.w = "run" => s.avail + Outstanding(s) + Len(s.chan) = s.cfg.bound
NoIdleSlot == s.on /\ ~Closed /\ s.avail > 0 => s.q = <<>>
\* at most once, and queued requests are exactly those the worker still has
QueueIsExact == s.on => \A k \in KS :
    (s.req[k] \in {"queued", "cancelled"}) <=> (InSeq(k, s.chan) \/ s.cur = k)
NoDuplicates == s.on => \A i, j \in 1..Len(s.chan) : i # j => s.chan[i] # s.chan[j]
\* nothing is left waiting on a dead worker, nobody waits for a slot of a closed buffer
NoneStranded == s.on /\ s.w = "gone" => \A k \in KS : s.req[k] \notin {"queued", "cancelled"}
NoneWaitClosed == s.on /\ Closed => s.q = <<>>
\* the worker is never asleep while there is something to do
WorkerWoken == s.on /\ s.w = "run" /\ s.wreg = "rx" /\ (s.chan # <<>> \/ NoHandles(s) \/ (s.failed # "no" /\ Outstanding(s) = 0)) => W \in s.due
WorkerWokenInner == s.on /\ s.w = "run" /\ s.wreg = "inner" /\ s.mode # "pending" => W \in s.due
AnswersWake == s.on => \A k \in KS : s.polled[k] => s.req[k] \in {"queued", "inner"}
\* after the failure no request reaches the service; cancelled requests never do
NoCallAfterFailure == [][s.on /\ s.failed # "no" => \A i \in 1..Len(ev'.log) : ev'.log[i][1] # "call"]_<<s, ev>>
CallsAreQueued == [][s.on /\ s'.on /\ ev'.op = "worker" => \A i \in 1..Len(ev'.log) :
                     ev'.log[i][1] = "call" => s.req[ev'.log[i][2]] = "queued"]_<<s, ev>>
\* first in, first out: dispatched requests form a prefix of the queue (skipping cancelled ones)
Fifo == [][s.on /\ s'.on /\ ev'.op = "worker" =>
           LET all == (IF s.cur # 0 THEN <<s.cur>> ELSE <<>>) \o s.chan
               Live(k) == s.req[k] = "queued"
               live == SelectSeq(all, Live)
           IN \A i \in 1..Len(ev'.log) : i <= Len(live) /\ ev'.log[i][2] = live[i]]_<<s, ev>>
Inv == /\ CapacityRespected /\ SlotsConserved /\ NoIdleSlot /\ QueueIsExact /\ NoDuplicates
       /\ NoneStranded /\ NoneWaitClosed /\ WorkerWoken /\ WorkerWokenInner /\ AnswersWake
===============================================================================
