-------------------------------- MODULE TimeoutLive --------------------------------
(* progress of tower::timeout under wake-ups alone: see Live *)
EXTENDS Timeout
VARIABLE pend
INSTANCE Live
LiveInit == \E c \in Cfgs : s = Start(c) /\ ev = Event("boot", <<c>>, Ok, <<>>, {}) /\ pend = {}
\* nobody has to answer: time alone ends the wait
Fairness ==
  /\ \A h \in HS : Fair(Poll(h))
  /\ \A k \in KS : Fair(Resp(k))
  /\ Fair(\E d \in Advs : Advance(d))
LiveSpec == LiveInit /\ [][L(Next)]_<<s, ev, pend>> /\ Fairness
Env == <>[](s.mode # "pending")
Everyone == Env => AllServed({H(h) : h \in HS} \cup {C(k) : k \in KS})
Answered == \A k \in KS : (s.call[k] # "none") ~> (s.call[k] = "none")
===============================================================================
