-------------------------------- MODULE StackLive --------------------------------
(* progress of Tower's limits put together under wake-ups alone: see Live *)
EXTENDS Stack
VARIABLE pend
INSTANCE Live
LiveInit == \E c \in Cfgs : s = Start(c) /\ ev = Event("boot", <<c>>, Ok, <<>>, {}) /\ pend = {}
\* (an operation ends with the spawned worker run until it waits)
Fairness ==
  /\ Fair(Worker) /\ Fair(\E d \in Advs : Advance(d))
  /\ \A h \in HS : Fair(Poll(h)) /\ Fair(\E k \in FirstFree : Call(h, k))
  /\ \A k \in KS : Fair(Resp(k)) /\ Fair(\E r \in Rs : Finish(k, r))
LiveSpec == LiveInit /\ [][L(Next)]_<<s, ev, pend>> /\ Fairness
\* the inner service becomes ready in the end, and nobody keeps for ever what a poll gave him, unused
Env == <>[](s.mode # "pending") /\ \A h \in HS : []<>(~s.can[h])
\* no layer keeps another from its limits for ever
Everyone == Env => AllServed({H(h) : h \in HS} \cup {C(k) : k \in KS})
\* every request is answered
Answered == Env => \A k \in KS : (s.ph[k] # "none") ~> (s.ph[k] = "none")
===============================================================================
