-------------------------------- MODULE FutureServiceLive --------------------------------
(* progress of tower::util::FutureService under wake-ups alone: see Live *)
EXTENDS FutureService
VARIABLE pend
INSTANCE Live
LiveInit == \E c \in Cfgs : s = Start(c) /\ ev = Event("boot", <<c>>, Ok, <<>>, {}) /\ pend = {}
Fairness ==
  /\ \A h \in HS : Fair(Poll(h)) /\ Fair(\E k \in FirstFree : Call(h, k))
  /\ Fair(\E r \in {"ok", "err"} : Made(r))
  /\ \A k \in KS : Fair(Resp(k)) /\ Fair(\E r \in Rs : Finish(k, r))
LiveSpec == LiveInit /\ [][L(Next)]_<<s, ev, pend>> /\ Fairness
Env == <>[](s.mode # "pending")
Everyone == Env => AllServed({H(h) : h \in HS} \cup {C(k) : k \in KS})
===============================================================================
