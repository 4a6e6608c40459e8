--------------------------------- MODULE Live ---------------------------------
(* An executor that polls a task only when it has to: when the task is new, when its
   last poll did not say "pending", or when it was woken (ev.wake) since.  The XLive
   modules run a component under this executor and show that every task that has to
   wait is served in the end, given that its environment does its part: calls are
   answered, polls that are due happen, time passes, the inner service becomes ready. *)
LOCAL INSTANCE Common
VARIABLES s, ev, pend     \* pend: the tasks whose last poll said "pending"
Touched(e) == CASE e.op = "worker" -> {"w"}
                [] e.op \in {"resp", "cancel"} -> {C(e.a[1])}
                [] e.op \in {"poll", "drop"} -> {H(IF e.a = <<>> THEN 1 ELSE e.a[1])}
                [] e.op = "call" -> {C(e.a[Len(e.a)])}
                [] OTHER -> {}
IsPoll(e) == e.op \in {"worker", "resp", "poll"}
\* no poll of a task that sleeps
Due == IsPoll(ev') => \A t \in Touched(ev') : t \in pend => t \in s.due
Keep == pend' = (pend \ Touched(ev')) \cup (IF IsPoll(ev') /\ ev'.r[1] = "pending" THEN Touched(ev') ELSE {})
L(A) == A /\ Due /\ Keep
Fair(A) == WF_<<s, pend>>(L(A))
AllServed(T) == \A t \in T : (t \in pend) ~> (t \notin pend)
===============================================================================
