-------------------------------- MODULE RetryLive --------------------------------
(* progress of tower::retry under wake-ups alone: see Live *)
EXTENDS Retry
VARIABLE pend
INSTANCE Live
LiveInit == \E c \in Cfgs : s = Start(c) /\ ev = Event("boot", <<c>>, Ok, <<>>, {}) /\ pend = {}
Fairness ==
  /\ \A h \in HS : Fair(Poll(h))
  /\ \A k \in KS : Fair(Polls(k)) /\ Fair(\E r \in Rs : Finish(k, r)) /\ Fair(PolicyDone(k))
LiveSpec == LiveInit /\ [][L(Next)]_<<s, ev, pend>> /\ Fairness
Env == <>[](s.mode # "pending")
\* the policy does not ask for further attempts for ever
Stops == <>[](ev.op = "resp" => ev.a[2] \in {"stop", "swap"})
Readied == Env => AllServed({H(h) : h \in HS})
\* nobody sleeps through the end of an attempt, of the policy's future, or the service becoming ready
Woken == Env => \A k \in KS : (C(k) \in pend /\ C(k) \notin s.due) ~> (C(k) \notin pend \/ C(k) \in s.due)
\* one request advances: from an attempt to the decision, from there to the next attempt
Advances == Env => \A k \in KS : \A p \in {"called", "waiting", "retrying"} : (s.c[k].ph = p) ~> (s.c[k].ph # p \/ (p = "called" /\ s.c[k].res = "open"))
Answered == Env /\ Stops => \A k \in KS : (s.c[k].ph # "none") ~> (s.c[k].ph = "none")
===============================================================================
