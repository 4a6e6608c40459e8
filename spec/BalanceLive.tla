-------------------------------- MODULE BalanceLive --------------------------------
(* progress of tower::balance::p2c under wake-ups alone: see Live *)
EXTENDS Balance
VARIABLE pend
INSTANCE Live
LiveInit == \E c \in Cfgs : s = Start(c) /\ ev = Event("boot", <<c>>, Ok, <<>>, {}) /\ pend = {}
Fairness ==
  /\ Fair(Poll)
  /\ \A c \in KC : Fair(Call(c, c)) /\ Fair(Resp(c)) /\ Fair(\E r \in Rs : Finish(c, r))
LiveSpec == LiveInit /\ [][L(Next)]_<<s, ev, pend>> /\ Fairness
\* in the end there always is an endpoint that is ready: however many others keep the balancer waiting for ever
Env == <>[](\E i \in SV : s.mode[i] = "ready" /\ i \in Live(s) /\ ~\E n \in 1..Len(s.q) : s.q[n][1] = "rem")
Everyone == Env => AllServed({H(1)})
Answered == \A c \in KC : (s.calls[c].st # "free") ~> (s.calls[c].st = "free")
===============================================================================
