-------------------------------- MODULE TestMockLive --------------------------------
(* progress of tower_test::mock under wake-ups alone: see Live *)
EXTENDS TestMock
VARIABLE pend
INSTANCE Live
LiveInit == \E c \in Cfgs : s = Start(c) /\ ev = Event("boot", <<c>>, Ok, <<>>, {}) /\ pend = {}
Fairness ==
  /\ \A h \in HS : Fair(Poll(h)) /\ Fair(\E k \in FirstFree : Call(h, k))
  /\ Fair(\E how \in {"poll", "await"} : Next_(how))
  /\ \A k \in KS : Fair(Resp(k)) /\ Fair(\E r \in {"ok", "err", "drop"} : Respond(k, r))
\* a test that goes on: no misuse
LiveSpec == LiveInit /\ [][L(Next /\ s'.on)]_<<s, ev, pend>> /\ Fairness
\* the handle allows requests again in the end
Env == <>[](s.open => s.rem = Unbounded)
Everyone == Env => AllServed({H(h) : h \in HS} \cup {C(k) : k \in KS})
===============================================================================
