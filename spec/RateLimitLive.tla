-------------------------------- MODULE RateLimitLive --------------------------------
(* progress of tower::limit::RateLimit under wake-ups alone: see Live *)
EXTENDS RateLimit
VARIABLE pend
INSTANCE Live
LiveInit == \E c \in Cfgs : s = Start(c) /\ ev = Event("boot", <<c>>, Ok, <<>>, {}) /\ pend = {}
Fairness == Fair(Poll) /\ Fair(\E k \in 1..MaxK : Call(k)) /\ Fair(\E d \in Advs : Advance(d))
LiveSpec == LiveInit /\ [][L(Next)]_<<s, ev, pend>> /\ Fairness
Env == <>[](s.mode # "pending")
Everyone == Env => AllServed({H(1)})
\* the limit is not for ever
Again == Env => (s.limited ~> ~s.limited)
===============================================================================
