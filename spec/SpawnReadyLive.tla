-------------------------------- MODULE SpawnReadyLive --------------------------------
(* progress of tower::spawn_ready under wake-ups alone: see Live *)
EXTENDS SpawnReady
VARIABLE pend
INSTANCE Live
LiveInit == \E c \in Cfgs : s = Start(c) /\ ev = Event("boot", <<c>>, Ok, <<>>, {}) /\ pend = {}
Fairness ==
  /\ Fair(Poll) /\ Fair(\E k \in FirstFree : Call(k))
  /\ \A k \in KS : Fair(Resp(k)) /\ Fair(\E r \in Rs : Finish(k, r))
LiveSpec == LiveInit /\ [][L(Next)]_<<s, ev, pend>> /\ Fairness
Env == <>[](s.mode # "pending")
Everyone == Env => AllServed({H(1)} \cup {C(k) : k \in KS})
\* the background task ends by itself
Settles == Env => ((s.bg = "running") ~> (s.bg # "running"))
===============================================================================
