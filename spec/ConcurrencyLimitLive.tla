-------------------------------- MODULE ConcurrencyLimitLive --------------------------------
(* progress of tower::limit::ConcurrencyLimit under wake-ups alone: see Live *)
EXTENDS ConcurrencyLimit
VARIABLE pend
INSTANCE Live
LiveInit == \E c \in Cfgs : s = Start(c) /\ ev = Event("boot", <<c>>, Ok, <<>>, {}) /\ pend = {}
Fairness ==
  /\ \A h \in HS : Fair(PollReady(h)) /\ Fair(\E k \in FirstFree : Call(h, k))
  /\ \A k \in CS : Fair(PollResp(k)) /\ Fair(\E r \in Rs : Finish(k, r))
LiveSpec == LiveInit /\ [][L(Next)]_<<s, ev, pend>> /\ Fairness
\* (a service whose inner service has failed keeps its slot until it is dropped)
Env == <>[](s.mode = "ready")
Everyone == Env => AllServed({H(h) : h \in HS} \cup {C(k) : k \in CS})
\* who asked for a slot gets one, whatever the others do
Granted == Env => \A h \in HS : (s.st[h] = "wait") ~> (s.st[h] # "wait")
===============================================================================
