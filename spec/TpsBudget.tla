------------------------------ MODULE TpsBudget ------------------------------
(* tower::retry::budget::TpsBudget: a token bucket over a sliding window.
   cfg.ttl is cut into 10 slots of W = ttl/10; deposits and withdrawals of the
   slot in progress sit in s.cur, finished slots in s.slot.  Slots change lazily,
   when an operation finds that the slot in progress is over.
   cfg.dep / cfg.wd are the amounts of one deposit / withdrawal, which the
   percentage cfg.pct determines (retry_percent = pct/100).
   Ghost: hist holds <<age, deposited, withdrawn>> for each moment of the last two ttl's,
   the newest last. *)
EXTENDS Common
CONSTANTS Cfgs, Advs, Bursts, Mixes, MaxOps
VARIABLES s, ev
N == 10

\* the amounts of the code (scaled by a thousand) without their common factor
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RawDep(pct) == IF pct = 0 THEN 0 ELSE IF pct <= 100 THEN 1000 ELSE 10 * pct
RawWd(pct)  == IF pct = 0 THEN 1 ELSE IF pct <= 100 THEN (200000 + pct) \div (2 * pct) ELSE 1000
Dep(pct) == RawDep(pct) \div Gcd(RawWd(pct), RawDep(pct))
Wd(pct)  == RawWd(pct) \div Gcd(RawWd(pct), RawDep(pct))
W(c) == c.ttl \div N
\* cfg.u: the time units (of ttl and of Advance) in a millisecond, 1 if not given
Second(c) == 1000 * (IF "u" \in DOMAIN c THEN c.u ELSE 1)
Reserve(c) == c.min * (c.ttl \div Second(c)) * Wd(c.pct)

Off == [on |-> FALSE]
Start(c) == [on |-> TRUE, cfg |-> c, cur |-> 0, slot |-> [i \in 0..N-1 |-> 0], idx |-> 0,
             el |-> 0,            \* time since the slot in progress began
             hist |-> <<>>, n |-> 0]
Emit(op, a, r, log) == ev' = Event(op, a, r, log, {})
Boot(c) == s' = Start(c) /\ Emit("boot", <<c>>, Ok, <<>>)

Expire(t) ==
  LET w == W(t.cfg) IN
  IF t.el < w THEN t
  ELSE LET n == ((t.el + w - 1) \div w) - 1      \* slots that passed without any operation
           c == [t.slot EXCEPT ![t.idx] = t.cur]
           first == (t.idx + 1) % N
           gone(i) == n >= N \/ ((i - first + N) % N) < n
       IN [t EXCEPT !.slot = [i \in 0..N-1 |-> IF gone(i) THEN 0 ELSE c[i]],
                    !.cur = 0, !.idx = (first + n) % N, !.el = 0]
RECURSIVE SumF(_, _)
SumF(f, i) == IF i < 0 THEN 0 ELSE f[i] + SumF(f, i - 1)
Balance(t) == t.cur + SumF(t.slot, N - 1) + Reserve(t.cfg)
Tick(t) == [t EXCEPT !.n = @ + 1]
Affordable(t) == LET w == Wd(t.cfg.pct) IN IF Balance(t) < 0 THEN 0 ELSE Balance(t) \div w
\* what is deposited and withdrawn at one moment is added up
Note(h, d, w) == IF d = 0 /\ w = 0 THEN h
                 ELSE IF h # <<>> /\ h[Len(h)][1] = 0 THEN [h EXCEPT ![Len(h)] = <<0, @[2] + d, @[3] + w>>]
                 ELSE Append(h, <<0, d, w>>)
Put(t, d) == [t EXCEPT !.cur = @ + d, !.hist = Note(@, d, 0)]
Take(t, n) == LET w == n * Wd(t.cfg.pct) IN [t EXCEPT !.cur = @ - w, !.hist = Note(@, 0, w)]

Deposit(n) ==
  /\ s' = Put(Expire(Tick(s)), n * Dep(s.cfg.pct))
  /\ Emit("deposit", <<n>>, Ok, <<>>)
Withdraw ==
  LET t == Expire(Tick(s)) IN
  IF Affordable(t) >= 1 THEN s' = Take(t, 1) /\ Emit("withdraw", <<>>, <<"ok", TRUE>>, <<>>)
  ELSE s' = t /\ Emit("withdraw", <<>>, <<"ok", FALSE>>, <<>>)
\* p threads withdraw concurrently, m times each; the result is how many were granted
Burst(p, m) ==
  LET t == Expire(Tick(s))
      n == Min(p * m, Affordable(t))
  IN s' = Take(t, n) /\ Emit("burst", <<p, m>>, <<"ok", n>>, <<>>)
\* p threads withdraw m times each while p others deposit m times each: whatever the order, no deposit is lost
\* and no more is granted than what there was with all deposits in
Mix(p, m) ==
  LET t == Expire(Tick(s))
      u == Put(t, p * m * Dep(s.cfg.pct))
  IN \E n \in Min(p * m, Affordable(t))..Min(p * m, Affordable(u)) :
       s' = Take(u, n) /\ Emit("mix", <<p, m>>, <<"ok", n>>, <<>>)
Advance(d) ==
  LET Young(x) == x[1] <= 2 * s.cfg.ttl
      cap == 20 * W(s.cfg)
      Older(x) == <<x[1] + d, x[2], x[3]>>
  IN
  /\ s' = [Tick(s) EXCEPT !.el = IF @ + d > cap THEN cap ELSE @ + d,
                          !.hist = SelectSeq([i \in 1..Len(s.hist) |-> Older(s.hist[i])], Young)]
  /\ Emit("adv", <<d>>, Ok, <<>>)

Do(op, a) ==
  \/ op = "deposit" /\ Deposit(a[1])
  \/ op = "withdraw" /\ Withdraw
  \/ op = "burst" /\ Burst(a[1], a[2])
  \/ op = "mix" /\ Mix(a[1], a[2])
  \/ op = "adv" /\ Advance(a[1])
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ s.on /\ s.n < MaxOps /\ (Deposit(1) \/ Withdraw \/ (\E b \in Bursts : Burst(b[1], b[2])) \/ (\E b \in Mixes : Mix(b[1], b[2])) \/ \E d \in Advs : Advance(d))

RECURSIVE SumAmt(_, _)
SumAmt(q, i) == IF q = <<>> THEN 0 ELSE Head(q)[i] + SumAmt(Tail(q), i)
Spent(h) == SumAmt(h, 3)
\* what is granted is covered by the reserve and by deposits that are not older than ttl and one slot
Covered == [][ev'.op \in {"withdraw", "burst"} /\ s'.hist # s.hist =>
   LET Live(x) == x[1] <= s.cfg.ttl + W(s.cfg)
   IN Spent(s'.hist) - Spent(s.hist) <= Reserve(s.cfg) + SumAmt(SelectSeq(s.hist, Live), 2)]_<<s, ev>>
\* a deposit younger than half a ttl pays for a withdrawal if nothing was withdrawn for two ttl's
Pays == [][ev'.op = "withdraw" /\ ev'.r[2] = FALSE =>
   LET Live(x) == x[1] < s.cfg.ttl \div 2
   IN Spent(s.hist) = 0 => Reserve(s.cfg) + SumAmt(SelectSeq(s.hist, Live), 2) < Wd(s.cfg.pct)]_<<s, ev>>

\* with nothing old in the books the balance never goes below zero
AllRecent == s.on /\ \A i \in 1..Len(s.hist) : s.hist[i][1] = 0
Inv == (s.on /\ s.el = 0) => (AllRecent => Balance(s) >= 0)
==============================================================================
