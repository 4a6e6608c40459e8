------------------------------ MODULE BufferRace ------------------------------
(* tower::buffer while its worker runs on another thread: the worker's poll is not
   one step but many (Tau), between which other threads use handles and responses.
   wbegin ... wend bracket the poll; hand is the message the worker holds. *)
EXTENDS Buffer
Free0 == [ph |-> "top", k |-> 0, out |-> "", told |-> FALSE, log |-> <<>>]
\* ph: top, popped, took, called, fail, out
RBoot(c) == s' = Start(c) @@ [run |-> FALSE, x |-> Free0] /\ Emit("boot", <<c>>, Ok, <<>>)
Quiet(op, a, r, log) == ev' = Event(op, a, r, log, {})

WBegin == /\ s.w = "run" /\ ~s.run
          /\ s' = [s EXCEPT !.run = TRUE, !.x = Free0, !.due = @ \ {W}, !.wreg = "none"]
          /\ Quiet("wbegin", <<>>, Ok, <<>>)
To(t, ph, k) == [t EXCEPT !.x.ph = ph, !.x.k = k]
Out(t, o) == [t EXCEPT !.x.ph = "out", !.x.k = 0, !.x.out = o]
\* request k is answered by the worker with r, unless nobody waits for it any more
Answer(t, k, r) == IF t.req[k] = "cancelled" THEN [t EXCEPT !.req[k] = "none"] ELSE Told([t EXCEPT !.req[k] = r], k)
Discard(t, k) == To([t EXCEPT !.req[k] = "none"], "top", 0)
Tau ==
  /\ s.on /\ s.run
  /\ LET x == s.x  k == s.x.k IN
     CASE x.ph = "top" /\ s.cur # 0 -> s' = To([s EXCEPT !.cur = 0], "popped", s.cur)
       [] x.ph = "top" /\ s.cur = 0 /\ s.chan # <<>> -> s' = Free(To([s EXCEPT !.chan = Tail(@)], "popped", Head(s.chan)))
       [] x.ph = "top" /\ s.cur = 0 /\ s.chan = <<>> ->
            IF NoHandles(s) \/ (s.failed # "no" /\ Outstanding(s) = 0) THEN s' = Out(s, "done")
            ELSE \/ s' = Out([s EXCEPT !.wreg = "rx"], "pending")
                 \/ s.failed # "no" /\ s' = Out(s, "done")
       [] x.ph = "popped" -> s' = IF s.req[k] = "cancelled" THEN Discard(s, k) ELSE To(s, "took", k)
       [] x.ph = "took" ->
            \/ s.failed # "no" /\ s' = To(Answer(s, k, "failed"), "top", 0)
            \/ s.failed = "no" /\ s.mode = "err1" /\ s' = To([s EXCEPT !.iarmed = FALSE, !.x.told = FALSE], "fail", k)
            \/ s.failed = "no" /\ s.mode = "pending" /\ s' = Out([s EXCEPT !.cur = k, !.wreg = "inner"], "pending")
            \/ s.failed = "no" /\ s.mode \in {"ready", "panic"} /\ s' = [To(s, "called", k) EXCEPT !.x.log = Append(@, <<"call", k>>)]
            \* cancelled in the meantime: the worker may still notice
            \/ s.req[k] = "cancelled" /\ s' = Discard(s, k)
       [] x.ph = "called" /\ s.mode = "panic" -> s' = Out(Answer(s, k, "closed"), "panic")
       [] x.ph = "called" /\ s.mode # "panic" ->
            s' = IF s.req[k] = "cancelled" THEN [Discard(s, k) EXCEPT !.x.log = Append(@, <<"drop", k>>)]
                 ELSE To(Answer(s, k, "inner"), "top", 0)
       \* the failure is published (the error first or at once with the end) and the request at hand told, in either order
       [] x.ph = "fail" ->
            \/ s.failed = "no" /\ s' = LET t == Close([s EXCEPT !.failed = "e1"]) IN IF x.told THEN To(t, "top", 0) ELSE t
            \/ ~x.told /\ s' = LET t == [Answer(s, k, "failed") EXCEPT !.x.told = TRUE] IN IF s.failed = "no" THEN t ELSE To(t, "top", 0)
       \* its task drops it at once
       [] x.ph = "out" /\ x.out # "pending" /\ s.w = "run" /\ (x.out = "done" => s.chan = <<>>) -> s' = WorkerGone(s)
       [] OTHER -> FALSE
  /\ ev' = ev
WEnd == /\ s.run /\ s.x.ph = "out"
        /\ s.x.out = "done" => s.chan = <<>>
        /\ LET t == [s EXCEPT !.run = FALSE, !.x = Free0] IN
           s' = IF s.x.out = "pending" \/ s.w = "gone" THEN t ELSE WorkerGone(t)
        /\ Emit("wend", <<>>, IF s.x.out = "pending" THEN Pend ELSE <<s.x.out>>, s.x.log)
Nested(op) == op \in {"poll", "call", "resp", "cancel", "clone", "drop"}
RDo(op, a) ==
  \/ op = "wbegin" /\ WBegin
  \/ op = "wend" /\ WEnd
  \/ (s.run => Nested(op)) /\ Do(op, a)

\* the specification by itself
RNext ==
  \/ ~s.on /\ \E c \in Cfgs : RBoot(c)
  \/ /\ s.on
     /\ \/ WBegin \/ WEnd \/ Tau
        \/ \E h \in HS : PollReady(h) \/ DropHandle(h)
        \/ Len(s.x.log) < 2 /\ \E h \in HS : \E k \in FirstFree : Call(h, k)
        \/ \E k \in KS : PollResp(k) \/ Cancel(k)
        \/ ~s.run /\ (KillWorker \/ (\E m \in Modes : Mode(m)) \/ \E k \in KS, r \in Rs : Finish(k, r))
        \/ \E h, h2 \in HS : Clone(h, h2)
RSpec == Init /\ [][RNext]_<<s, ev>>

\* what the worker holds is still queued or cancelled, and nothing else is
RQueue == s.on => \A k \in KS : (s.req[k] \in {"queued", "cancelled"}) <=>
            (InSeq(k, s.chan) \/ s.cur = k \/ (s.run /\ s.x.k = k /\ ~(s.x.ph = "fail" /\ s.x.told)))
Awake == s.on /\ s.w = "run" /\ ~s.run => /\ (s.wreg = "rx" /\ (s.chan # <<>> \/ NoHandles(s) \/ (s.failed # "no" /\ Outstanding(s) = 0)) => W \in s.due)
                                          /\ (s.wreg = "inner" /\ s.mode # "pending" => W \in s.due)
\* registered while it still runs: the wake-up is not lost
AwakeRun == s.on /\ s.run /\ s.x.ph = "out" /\ s.wreg = "rx" /\ (s.chan # <<>> \/ NoHandles(s)) => W \in s.due
RInv == CapacityRespected /\ SlotsConserved /\ NoIdleSlot /\ NoDuplicates /\ NoneStranded /\ NoneWaitClosed /\ AnswersWake
        /\ RQueue /\ Awake /\ AwakeRun
RNoCallAfterFailure == [][s.on /\ s'.on /\ s.failed # "no" /\ s'.run => Len(s'.x.log) = 0 \/ s'.x.log = s.x.log]_<<s, ev>>
\* the messages are dispatched in the order of the queue: the next one is the oldest
RFifo == [][s.on /\ s'.on /\ s.run /\ s'.run /\ s.x.ph = "top" /\ s'.x.ph = "popped" =>
            s'.x.k = (IF s.cur # 0 THEN s.cur ELSE Head(s.chan))]_<<s, ev>>
\* a request cancelled before the worker's poll began is never handed over
RCancelled == [][s.on /\ s'.on /\ s.run /\ s'.run /\ s.x.ph = "popped" /\ s'.x.ph = "took" => s.req[s.x.k] = "queued"]_<<s, ev>>
===============================================================================
