-------------------------------- MODULE FilterLive --------------------------------
(* progress of tower::filter under wake-ups alone: see Live *)
EXTENDS Filter
VARIABLE pend
INSTANCE Live
LiveInit == \E c \in Cfgs : s = Start(c) /\ ev = Event("boot", <<c>>, Ok, <<>>, {}) /\ pend = {}
Fairness ==
  /\ \A h \in HS : Fair(Poll(h))
  /\ \A k \in KS : Fair(Resp(k)) /\ Fair(\E r \in Rs : Finish(k, r)) /\ Fair(\E v \in Vs : Check(k, v))
LiveSpec == LiveInit /\ [][L(Next)]_<<s, ev, pend>> /\ Fairness
Env == <>[](s.mode # "pending")
Everyone == Env => AllServed({H(h) : h \in HS} \cup {C(k) : k \in KS})
Answered == Env => \A k \in KS : (s.f[k].st # "none") ~> (s.f[k].st = "none")
===============================================================================
