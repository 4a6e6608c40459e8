------------------------------- MODULE Backoff -------------------------------
(* tower::retry::backoff: ExponentialBackoffMaker and the sessions it makes.
   Times in the unit named when the maker is made ("us", "ms", "ds" = 100 ms or
   "eon" = 2^32 s; a wait of an eon or more is just "far": the timers of tokio do not reach that far; "tiny": minima in ns, all
   else in 1024 ns, rounded down, so that more than 32 doublings can be told apart; no jitter).  The jitter ratio is jit/2; a value of the random number
   generator is f/8 (0 <= f < 8). *)
EXTENDS Common
CONSTANTS NS, Mins, Maxs, Jits, Fs, MaxIter, Units
VARIABLES s, ev
SS == 1..NS

Off == [on |-> FALSE]
NoMk == [ok |-> FALSE]
NoSe == [on |-> FALSE]
Start == [on |-> TRUE, mk |-> NoMk, se |-> [i \in SS |-> NoSe]]
Emit(op, a, r) == ev' = Event(op, a, r, <<>>, {})
Boot(c) == s' = Start /\ Emit("boot", <<c>>, Ok)

\* -1 stands for a negative ratio, 201 for one above 100, 999 for infinity, 998 for NaN
Valid(min, max, jit, u) == (IF u = "tiny" THEN (min + 1023) \div 1024 ELSE min) <= max /\ max > 0 /\ jit >= 0 /\ jit <= 200
New(min, max, jit, u) ==
  IF Valid(min, max, jit, u)
  THEN /\ s' = [s EXCEPT !.mk = [ok |-> TRUE, min |-> min, max |-> max, jit |-> jit, u |-> u]]
       /\ Emit("new", <<min, max, jit, u>>, Ok)
  ELSE s' = s /\ Emit("new", <<min, max, jit, u>>, <<"invalid">>)
\* a new session starts from the beginning
Make(i) ==
  /\ s.mk.ok
  /\ s' = [s EXCEPT !.se[i] = [on |-> TRUE, min |-> s.mk.min, max |-> s.mk.max, jit |-> s.mk.jit, u |-> s.mk.u, it |-> 0]]
  /\ Emit("make", <<i>>, Ok)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
\* min * 2^it, no more than max, without overflowing
RECURSIVE Grow(_, _, _)
Grow(b, max, it) == IF b >= max THEN max ELSE IF it = 0 \/ b = 0 THEN b ELSE IF b > max \div 2 THEN max ELSE Grow(2 * b, max, it - 1)
Least(e) == IF e.u = "tiny" THEN e.min \div 1024 ELSE e.min
Base(e) == IF e.u # "tiny" THEN Grow(e.min, e.max, e.it)
           ELSE IF e.it < 10 THEN Min(e.max, (e.min * Pow2(e.it)) \div 1024) ELSE Grow(e.min, e.max, e.it - 10)
\* b * j * f / 16, no more than cap, without leaving the integers of TLC
Scale(b, j, f, cap) ==
  LET m == j * f  q == b \div 16
  IN IF m = 0 THEN 0 ELSE IF q >= cap \div m + 1 THEN cap ELSE Min(cap, q * m + ((b % 16) * m) \div 16)
Jitter(e, f) == Scale(Base(e), e.jit, f, e.max - Base(e))
NextDelay(i, f) ==
  /\ s.se[i].on
  /\ LET e == s.se[i] IN
     /\ s' = [s EXCEPT !.se[i].it = Min(@ + 1, 64)]
     /\ Emit("next", <<i, f>>, IF e.u = "eon" /\ Base(e) + Jitter(e, f) > 0 THEN <<"far">> ELSE <<"ok", Base(e) + Jitter(e, f)>>)

Do(op, a) ==
  \/ op = "new" /\ New(a[1], a[2], a[3], a[4])
  \/ op = "make" /\ Make(a[1])
  \/ op = "next" /\ NextDelay(a[1], a[2])
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
Next == \/ ~s.on /\ Boot([x |-> 0])
        \/ /\ s.on
           /\ \/ ~s.mk.ok /\ \E a \in Mins, b \in Maxs, j \in Jits, u \in Units : New(a, b, j, u)
              \/ \E i \in SS : (~s.se[i].on /\ Make(i)) \/ (s.se[i].on /\ s.se[i].it < MaxIter /\ \E f \in Fs : NextDelay(i, f))
              \/ \E i \in SS : s.se[i].on /\ s.se[i].it = MaxIter /\ Make(i)
\* every delay lies between min and max, and without jitter delays double up to max
Bounds == [][ev'.op = "next" /\ ev'.r # <<"far">> => LET e == s.se[ev'.a[1]] IN
   /\ ev'.r[2] >= Least(e) /\ ev'.r[2] <= e.max
   /\ ev'.r[2] - Base(e) <= Scale(Base(e), e.jit, 8, e.max)
   /\ e.jit = 0 => ev'.r[2] = Base(e)
   /\ e.u # "tiny" /\ e.it < 31 /\ e.min <= (e.max \div Pow2(e.it)) => ev'.r[2] >= e.min * Pow2(e.it)]_<<s, ev>>
Inv == TRUE
==============================================================================
