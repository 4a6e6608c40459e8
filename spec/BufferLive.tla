-------------------------------- MODULE BufferLive --------------------------------
(* progress of tower::buffer under wake-ups alone: see Live *)
EXTENDS Buffer
VARIABLE pend
INSTANCE Live
LiveInit == \E c \in Cfgs : s = Start(c) /\ ev = Event("boot", <<c>>, Ok, <<>>, {}) /\ pend = {}
Fairness ==
  /\ Fair(PollWorker)
  /\ \A h \in HS : Fair(PollReady(h)) /\ Fair(\E k \in FirstFree : Call(h, k))
  /\ \A k \in KS : Fair(PollResp(k)) /\ Fair(\E r \in Rs : Finish(k, r))
LiveSpec == LiveInit /\ [][L(Next)]_<<s, ev, pend>> /\ Fairness
\* the inner service becomes ready (or fails) in the end
Env == <>[](s.mode # "pending")
Everyone == Env => AllServed({H(h) : h \in HS} \cup {C(k) : k \in KS})
\* what was accepted is dispatched or refused
Handled == Env => \A k \in KS : (s.req[k] = "queued") ~> (s.req[k] # "queued")
\* the worker ends after the last handle
Ends == Env => (NoHandles(s) ~> (s.w = "gone"))
===============================================================================
