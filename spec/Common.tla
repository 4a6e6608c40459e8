------------------------------- MODULE Common -------------------------------
(* Helpers shared by the component specifications.

   Every component specification has two variables:
     s  - the state (a record; s.on = FALSE until the system is built),
     ev - the last labelled transition: operation, arguments, result, what the
          inner services saw (log) and which tasks must have been woken (wake).
   ev never influences s; it is what the real code is compared against.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

H(i) == "h" \o ToString(i)     \* task polling handle i
C(i) == "c" \o ToString(i)     \* task polling response i

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

Without(q, x) == LET P(y) == y # x IN SelectSeq(q, P)
InSeq(x, q) == \E i \in 1..Len(q) : q[i] = x

Pend == <<"pending">>
Ok   == <<"ok">>
Nil  == <<"nil">>
Event(op, a, r, log, wake) == [op |-> op, a |-> a, r |-> r, log |-> log, wake |-> wake]
=============================================================================
