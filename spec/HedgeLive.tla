-------------------------------- MODULE HedgeLive --------------------------------
(* progress of tower::hedge under wake-ups alone: see Live *)
EXTENDS Hedge
VARIABLE pend
INSTANCE Live
LiveInit == \E c \in Cfgs : s = Start(c) /\ ev = Event("boot", <<c>>, Ok, <<>>, {}) /\ pend = {}
Fairness ==
  /\ Fair(Poll) /\ Fair(\E k \in FirstFree, cl \in BOOLEAN : s.n < MaxCalls /\ Call(k, cl))
  /\ \A k \in KS : Fair(\E b \in (IF Asks(k) THEN BOOLEAN ELSE {TRUE}) : Resp(k, b))
  /\ \A k \in KS, w \in {1, 2} : Fair(\E r \in Rs : Finish(k, r, w))
LiveSpec == LiveInit /\ [][L(Next)]_<<s, ev, pend>> /\ Fairness
Env == <>[](s.mode # "pending")
Everyone == Env => AllServed({H(1)} \cup {C(k) : k \in KS})
\* one attempt's answer is enough
Answered == \A k \in KS : (s.f[k].st = "open" /\ (s.f[k].a # "open" \/ s.f[k].b \in {"ok", "err"})) ~> (s.f[k].st = "none")
===============================================================================
