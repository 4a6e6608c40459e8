-------------------------------- MODULE Choice --------------------------------
(* What "the less loaded of two endpoints drawn at random" means for the shares of the
   endpoints: of the n(n-1) ordered pairs of two different endpoints, all equally likely,
   an endpoint wins both orders against a more loaded one and one of the two against an
   equally loaded one.  "pick" makes many choices - each by a new balancer, or all by one -
   among endpoints of the given loads, after the one at place gone (0: none) was removed
   again, and reports each endpoint's share in units of 1/n(n-1).                       *)
EXTENDS Common
CONSTANTS Cfgs, Ns, Loads
VARIABLES s, ev
Off == [on |-> FALSE]
Emit(op, a, r, log) == ev' = Event(op, a, r, log, {})
Boot(c) == s' = [on |-> TRUE, cfg |-> c] /\ Emit("boot", <<c>>, Ok, <<>>)
Wins(L, R, k) == 2 * Cardinality({j \in R \ {k} : L[k] < L[j]}) + Cardinality({j \in R \ {k} : L[k] = L[j]})
Share(L, R, k) == IF k \notin R THEN 0 ELSE IF R = {k} THEN 1 ELSE Wins(L, R, k)
Shares(L, gone) == LET R == (1..Len(L)) \ {gone} IN [k \in 1..Len(L) |-> Share(L, R, k)]
Pick(L, gone) ==
  /\ Len(L) > 0 /\ gone \in 0..Len(L) /\ ~(Len(L) = 1 /\ gone = 1)
  /\ s' = s
  /\ Emit("pick", <<L, gone>>, <<"ok", Shares(L, gone)>>, <<>>)
\* many endpoints, t of them under a load of 1 and the others of 2, interleaved: el and eh are their shares;
\* TRUE: everyone's share is nearer to that than to half or one and a half of it
Many(n, t, el, eh) ==
  /\ n > 1 /\ t \in 0..n
  /\ LET L == [k \in 1..n |-> IF k <= t THEN 1 ELSE 2] IN
     /\ t > 0 => el = Wins(L, 1..n, 1)
     /\ t < n => eh = Wins(L, 1..n, n)
  /\ s' = s
  /\ Emit("many", <<n, t, el, eh>>, <<"ok", TRUE>>, <<>>)
Do(op, a) == \/ op = "pick" /\ Pick(a[1], a[2])
             \/ op = "many" /\ Many(a[1], a[2], a[3], a[4])
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ s.on /\ \E n \in Ns : \E L \in [1..n -> Loads] : \E g \in 0..n : Pick(L, g)

RECURSIVE Sum(_, _)
Sum(f, R) == IF R = {} THEN 0 ELSE LET x == CHOOSE x \in R : TRUE IN f[x] + Sum(f, R \ {x})
Inv == s.on => s.cfg.kind \in {"new", "make", "seed", "kept"}
\* every choice goes to one of those left; the most loaded of all gets none; equals get equal shares
Sound == [][ev'.op = "pick" =>
  LET L == ev'.a[1]  R == (1..Len(L)) \ {ev'.a[2]}  sh == ev'.r[2]  n == Cardinality(R) IN
  /\ Sum(sh, 1..Len(L)) = IF n = 1 THEN 1 ELSE n * (n - 1)
  /\ \A k \in R : n > 1 /\ (\A j \in R \ {k} : L[k] > L[j]) => sh[k] = 0
  /\ \A k, j \in R : /\ L[k] = L[j] => sh[k] = sh[j]
                     /\ L[k] < L[j] => sh[k] > sh[j]]_<<s, ev>>
===============================================================================
