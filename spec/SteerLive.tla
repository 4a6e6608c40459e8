-------------------------------- MODULE SteerLive --------------------------------
(* progress of tower::steer under wake-ups alone: see Live *)
EXTENDS Steer
VARIABLE pend
INSTANCE Live
LiveInit == \E c \in Cfgs : s = Start(c) /\ ev = Event("boot", <<c>>, Ok, <<>>, {}) /\ pend = {}
Fairness ==
  /\ \A h \in HS : Fair(Poll(h)) /\ Fair(\E k \in FirstFree, i \in SV : Call(h, k, 100 * i + k))
  /\ \A k \in KS : Fair(Resp(k)) /\ Fair(\E r \in Rs : Finish(k, r))
LiveSpec == LiveInit /\ [][L(Next)]_<<s, ev, pend>> /\ Fairness
Env == <>[](\A i \in SV : s.mode[i] # "pending")
Everyone == Env => AllServed({H(h) : h \in HS} \cup {C(k) : k \in KS})
===============================================================================
