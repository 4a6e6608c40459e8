-------------------------------- MODULE OneshotLive --------------------------------
(* progress of Oneshot, ReadyOneshot and Ready under wake-ups alone: see Live *)
EXTENDS Oneshot
VARIABLE pend
INSTANCE Live
LiveInit == \E c \in Cfgs : s = Start(c) /\ ev = Event("boot", <<c>>, Ok, <<>>, {}) /\ pend = {}
Fairness == \A k \in KS : Fair(Poll(k)) /\ Fair(Use(k)) /\ Fair(\E r \in Rs : Finish(k, r))
LiveSpec == LiveInit /\ [][L(Next)]_<<s, ev, pend>> /\ Fairness
Env == <>[](s.mode # "pending")
Everyone == Env => AllServed({C(k) : k \in KS})
Over == Env => \A k \in KS : (s.f[k].st = "wait") ~> (s.f[k].st # "wait")
===============================================================================
