------------------------------ MODULE ReadyCache ------------------------------
(* tower::ready_cache::ReadyCache: services SV (ids) stored under keys KY.  A key has
   at most one ready and one pending service.  In which order pending services are
   driven is left open.
   s.canc: replaced or evicted pending services that may not have been let go yet. *)
EXTENDS Common
CONSTANTS NKey, NSvc, Cfgs, Modes
VARIABLES s, ev
KY == 1..NKey
SV == 1..NSvc

Off == [on |-> FALSE]
Start(c) == [on |-> TRUE, cfg |-> c,
             ready |-> [k \in KY |-> 0], pend |-> [k \in KY |-> 0], canc |-> {},
             mode |-> [i \in SV |-> "ready"],
             reg |-> [i \in SV |-> "no"],     \* who is told when i becomes ready: no one, the poller of pending services, a checker
             due |-> {}]
Emit(op, a, r, log) == ev' = Event(op, a, r, log, s'.due)
Boot(c) == s' = Start(c) /\ Emit("boot", <<c>>, Ok, <<>>)
InReady(t) == {t.ready[k] : k \in KY} \ {0}
InPend(t) == {t.pend[k] : k \in KY} \ {0}
Live(t) == InReady(t) \cup InPend(t)
Free(t) == SV \ (Live(t) \cup t.canc)
KeyOf(t, i) == CHOOSE k \in KY : t.pend[k] = i

Push(k, i) ==
  /\ i \in Free(s)
  /\ s' = [s EXCEPT !.pend[k] = i, !.canc = IF s.pend[k] = 0 THEN @ ELSE @ \cup {s.pend[k]}, !.reg[i] = "no"]
  /\ Emit("push", <<k, i>>, Ok, <<>>)
Promote(t, A) == [t EXCEPT !.ready = [k \in KY |-> IF t.pend[k] \in A THEN t.pend[k] ELSE t.ready[k]],
                           !.pend  = [k \in KY |-> IF t.pend[k] \in A THEN 0 ELSE t.pend[k]],
                           !.reg   = [i \in SV |-> IF i \in A THEN "no" ELSE t.reg[i]]]
PollPending ==
  LET Q == InPend(s)
      E == {i \in Q : s.mode[i] = "err1"}
      R == {i \in Q : s.mode[i] = "ready"}
      P == Q \ (E \cup R)
      t == [s EXCEPT !.due = @ \ {H(1)}]
  IN \/ /\ E = {}
        /\ s' = [Promote(t, R) EXCEPT !.canc = {}, !.reg = [i \in SV |-> IF i \in P THEN "pend" ELSE "no"]]
        /\ Emit("pend", <<>>, IF P = {} THEN Ok ELSE Pend, <<>>)
     \/ \E e \in E, A \in SUBSET R, D \in SUBSET s.canc :
          /\ s' = [Promote(t, A) EXCEPT !.pend[KeyOf(s, e)] = 0, !.reg[e] = "no", !.canc = @ \ D]
          /\ Emit("pend", <<>>, <<"err", KeyOf(s, e), "e1">>, <<>>)
\* a service leaves the ready set because it is used or not ready any more
Back(t, k) == IF t.pend[k] = 0 THEN [t EXCEPT !.ready[k] = 0, !.pend[k] = t.ready[k]] ELSE [t EXCEPT !.ready[k] = 0]
Check(k) ==
  LET i == s.ready[k]
      \* a check makes the checker's earlier wakers stale
      t == [s EXCEPT !.due = @ \ {H(2)}, !.reg = [x \in SV |-> IF s.reg[x] = "check" THEN "no" ELSE s.reg[x]]] IN
  IF i = 0 THEN s' = t /\ Emit("check", <<k>>, <<"ok", FALSE>>, <<>>)
  ELSE CASE s.mode[i] = "err1" -> s' = [t EXCEPT !.ready[k] = 0] /\ Emit("check", <<k>>, <<"err", k, "e1">>, <<>>)
         [] s.mode[i] = "lost" -> s' = [Back(t, k) EXCEPT !.reg[i] = IF s.pend[k] = 0 THEN "check" ELSE "no"]
                                  /\ Emit("check", <<k>>, <<"ok", FALSE>>, <<>>)
         [] OTHER -> s' = t /\ Emit("check", <<k>>, <<"ok", TRUE>>, <<>>)
Call(k, q) ==
  /\ s.ready[k] # 0
  /\ s' = [Back(s, k) EXCEPT !.reg[s.ready[k]] = "no"]
  /\ Emit("call", <<k, q>>, <<"ok", 1000 + q>>, <<<<"call", s.ready[k], q>>>>)
Evict(k) ==
  /\ s' = [s EXCEPT !.ready[k] = 0, !.pend[k] = 0, !.canc = IF s.pend[k] = 0 THEN @ ELSE @ \cup {s.pend[k]}]
  /\ Emit("evict", <<k>>, <<"ok", s.ready[k] # 0 \/ s.pend[k] # 0>>, <<>>)
\* keys with their ready services, keys with pending ones, number of pending, live services
Look ==
  /\ s' = s
  /\ \E D \in SUBSET s.canc, n \in 0..Cardinality(s.canc) :
       LET p == Cardinality(InPend(s)) + n
           r == Cardinality(InReady(s)) IN
       Emit("look", <<>>, <<"ok", s.ready, [k \in KY |-> s.pend[k] # 0], r, p, r + p, r + p = 0,
                            [i \in SV |-> i \in Live(s) \cup D]>>, <<>>)
Mode(i, m) ==
  /\ s.mode[i] # m
  /\ LET wakes == m \in {"ready", "err1"} /\ i \in InPend(s) IN
     s' = [s EXCEPT !.mode[i] = m,
                    !.due = IF wakes /\ s.reg[i] = "pend" THEN @ \cup {H(1)}
                            ELSE IF wakes /\ s.reg[i] = "check" THEN @ \cup {H(2)} ELSE @,
                    !.reg[i] = IF wakes THEN "no" ELSE @]
  /\ Emit("mode", <<i, m>>, Ok, <<>>)

Do(op, a) ==
  \/ op = "push" /\ Push(a[1], a[2])
  \/ op = "pend" /\ PollPending
  \/ op = "check" /\ Check(a[1])
  \/ op = "call" /\ Call(a[1], a[2])
  \/ op = "evict" /\ Evict(a[1])
  \/ op = "look" /\ Look
  \/ op = "mode" /\ Mode(a[1], a[2])
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ /\ s.on
           /\ \/ PollPending \/ Look
              \/ \E k \in KY : Check(k) \/ Call(k, k) \/ Evict(k) \/ \E i \in SV : Push(k, i)
              \/ \E i \in SV, m \in Modes : Mode(i, m)
\* a service is in one place only
OnePlace == s.on => /\ \A k, j \in KY : (s.ready[k] # 0 => s.ready[k] # s.pend[j]) /\ (k # j /\ s.ready[k] # 0 => s.ready[k] # s.ready[j])
                                        /\ (k # j /\ s.pend[k] # 0 => s.pend[k] # s.pend[j])
                    /\ s.canc \cap Live(s) = {}
\* only a service that was found ready is used, and the latest one pushed for a key never gives way to an older one
UsesReady == [][ev'.op = "call" => s.ready[ev'.a[1]] = ev'.log[1][2]]_<<s, ev>>
NewestWins == [][s.on /\ s'.on => \A k \in KY : s.pend[k] # 0 /\ ev'.op # "push" => s'.pend[k] \in {0, s.pend[k]}]_<<s, ev>>
NotForgotten == [][s.on /\ ev'.op \in {"pend", "check", "call", "look", "mode"} => \A k \in KY :
    \* a key only disappears because its service failed or was replaced
    (s.ready[k] # 0 \/ s.pend[k] # 0) /\ s'.ready[k] = 0 /\ s'.pend[k] = 0 => ev'.r[1] = "err" /\ ev'.r[2] = k]_<<s, ev>>
Inv == OnePlace
==============================================================================
