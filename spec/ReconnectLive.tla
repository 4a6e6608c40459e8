-------------------------------- MODULE ReconnectLive --------------------------------
(* progress of tower::reconnect under wake-ups alone: see Live *)
EXTENDS Reconnect
VARIABLE pend
INSTANCE Live
LiveInit == \E c \in Cfgs : s = Start(c) /\ ev = Event("boot", <<c>>, Ok, <<>>, {}) /\ pend = {}
Fairness ==
  /\ Fair(Poll) /\ Fair(\E k \in FirstFree : Call(k)) /\ Fair(\E r \in {"ok", "err"} : FinishMake(r))
  /\ \A k \in KS : Fair(Resp(k)) /\ Fair(\E r \in Rs : Finish(k, r))
LiveSpec == LiveInit /\ [][L(Next)]_<<s, ev, pend>> /\ Fairness
Env == <>[](\A i \in Ids : s.mode[i] # "pending")
Everyone == Env => AllServed({H(1)} \cup {C(k) : k \in KS})
\* with a maker that works and connections that do, requests reach a connection again
Works == <>[](\A i \in Ids : s.mode[i] = "ready") /\ []<>(ev.op = "finish" /\ ev.a[1] = MK /\ ev.a[3] = "ok")
Recovers == Env => ((s.ph = "connecting") ~> (s.ph # "connecting"))
===============================================================================
