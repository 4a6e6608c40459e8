------------------------------- MODULE Balance -------------------------------
(* tower::balance::p2c::Balance over a discovery stream, endpoints SV (ids) under keys
   KY.  The choice of the two compared endpoints is random: every pair is allowed here,
   and the "spread" operation says what a long run of choices has to look like.       *)
EXTENDS Common
CONSTANTS NKey, NSvc, NK, Cfgs, Modes, Loads, Rs, MaxQ, Disc
VARIABLES s, ev
KY == 1..NKey
SV == 1..NSvc
KC == 1..NK
NoCall == [st |-> "free", svc |-> 0, q |-> 0, reg |-> FALSE, r |-> ""]

Off == [on |-> FALSE]
Start(c) == [on |-> TRUE, cfg |-> c, q |-> <<>>, fin |-> "no",   \* the stream's end: not yet, queued, seen
             ready |-> [k \in KY |-> 0], pend |-> [k \in KY |-> 0], canc |-> {},
             mode |-> [i \in SV |-> "ready"], load |-> [i \in SV |-> 1],
             sel |-> 0, rdy |-> FALSE, wait |-> FALSE, calls |-> [c1 \in KC |-> NoCall], due |-> {}]
Emit(op, a, r, log) == ev' = Event(op, a, r, log, s'.due)
Boot(c) == s' = Start(c) /\ Emit("boot", <<c>>, Ok, <<>>)
InReady(t) == {t.ready[k] : k \in KY} \ {0}
InPend(t) == {t.pend[k] : k \in KY} \ {0}
Queued(t) == {t.q[n][3] : n \in 1..Len(t.q)} \ {0}
Live(t) == InReady(t) \cup InPend(t) \cup Queued(t)
Served(t, i) == {c1 \in KC : t.calls[c1].st # "free" /\ t.calls[c1].svc = i}
\* an endpoint with requests outstanding does not come back: its load would start from nothing
Free(t) == {i \in SV \ (Live(t) \cup t.canc) : t.cfg.load \in {"own", "const"} \/ Served(t, i) = {}}
Wake1(t) == IF t.wait THEN t.due \cup {H(1)} ELSE t.due

\* ---- the discovery stream
Feed(e, f) ==
  /\ s.fin = "no"
  /\ s' = [s EXCEPT !.q = Append(@, e), !.fin = f, !.due = Wake1(s), !.wait = FALSE]
Ins(k, i) == i \in Free(s) /\ Feed(<<"ins", k, i>>, "no") /\ Emit("ins", <<k, i>>, Ok, <<>>)
Rem(k) == Feed(<<"rem", k, 0>>, "no") /\ Emit("rem", <<k>>, Ok, <<>>)
DErr == Feed(<<"err", 0, 0>>, "no") /\ Emit("derr", <<>>, Ok, <<>>)
DEnd == s.fin = "no" /\ s' = [s EXCEPT !.fin = "queued", !.due = Wake1(s), !.wait = FALSE] /\ Emit("dend", <<>>, Ok, <<>>)

Canc(t, i) == IF i = 0 THEN t ELSE [t EXCEPT !.canc = @ \cup {i}]
RECURSIVE Drain(_)
\* [t, err]: the state after the queued changes, up to the first error
Drain(t) ==
  IF t.q = <<>> THEN [t |-> [t EXCEPT !.fin = IF @ = "queued" THEN "seen" ELSE @], err |-> FALSE]
  ELSE LET e == Head(t.q)
           u == [t EXCEPT !.q = Tail(@)] IN
       CASE e[1] = "err" -> [t |-> u, err |-> TRUE]
         [] e[1] = "ins" -> Drain([Canc(u, u.pend[e[2]]) EXCEPT !.pend[e[2]] = e[3]])
         [] OTHER -> Drain([Canc(u, u.pend[e[2]]) EXCEPT !.pend[e[2]] = 0, !.ready[e[2]] = 0])
Promote(t) == [t EXCEPT !.ready = [k \in KY |-> IF t.pend[k] # 0 /\ t.mode[t.pend[k]] = "ready" THEN t.pend[k] ELSE t.ready[k]],
                        !.pend  = [k \in KY |-> IF t.pend[k] # 0 /\ t.mode[t.pend[k]] \in {"ready", "err1"} THEN 0 ELSE t.pend[k]],
                        !.canc = {}]
Back(t, k) == IF t.pend[k] = 0 THEN [t EXCEPT !.ready[k] = 0, !.pend[k] = t.ready[k]] ELSE [t EXCEPT !.ready[k] = 0]
Full(t) == {k \in KY : t.ready[k] # 0}
\* cfg.load: the endpoints' own loads, set by "load"; or measured by the requests outstanding (while no
\* time passes, a peak-EWMA load is proportional to one more than their number); or constant
Ld(t, k) == CASE t.cfg.load = "own" -> t.load[t.ready[k]]
              [] t.cfg.load \in {"pending", "ewma"} -> Cardinality(Served(t, t.ready[k]))
              [] OTHER -> 0
\* the less loaded of two different ready endpoints, whichever two; the only one if there is one
Picks(t) == IF Cardinality(Full(t)) = 1 THEN Full(t)
            ELSE {k \in Full(t) : \E j \in Full(t) \ {k} : Ld(t, k) <= Ld(t, j)}
RECURSIVE Choose(_)
\* the states in which the search for an endpoint may end
Choose(t) ==
  IF t.sel # 0 THEN
    LET i == t.ready[t.sel] IN
    CASE t.mode[i] = "err1" -> Choose([t EXCEPT !.ready[t.sel] = 0, !.sel = 0])
      [] t.mode[i] = "lost" -> Choose([Back(t, t.sel) EXCEPT !.sel = 0])
      [] OTHER -> {t}
  ELSE IF Full(t) = {} THEN {t}
  ELSE UNION {Choose([t EXCEPT !.sel = k]) : k \in Picks(t)}
Poll ==
  LET u == Drain([s EXCEPT !.due = @ \ {H(1)}, !.wait = FALSE])
      p == Promote(u.t)
      \* a change of the membership may, and the loss of the chosen endpoint must, lead to a new choice
      starts == {[p EXCEPT !.sel = IF p.sel # 0 /\ p.ready[p.sel] # 0 /\ ~\E n \in 1..Len(s.q) : s.q[n][1] = "rem" /\ s.q[n][2] = p.sel THEN @ ELSE 0]}
                \cup (IF Len(s.q) > 0 THEN {[p EXCEPT !.sel = 0]} ELSE {}) IN
  IF u.err THEN
    /\ \E x \in {u.t.sel, 0} : s' = [u.t EXCEPT !.sel = IF x # 0 /\ u.t.ready[x] = 0 THEN 0 ELSE x, !.rdy = FALSE]
    /\ Emit("poll", <<>>, <<"err", "discover", "d1">>, <<>>)
  ELSE \E t \in UNION {Choose(x) : x \in starts} :
    IF t.sel # 0 THEN s' = [t EXCEPT !.rdy = TRUE] /\ Emit("poll", <<>>, Ok, <<>>)
    ELSE s' = [t EXCEPT !.wait = TRUE, !.rdy = FALSE] /\ Emit("poll", <<>>, Pend, <<>>)
Call(c, q) ==
  /\ s.rdy /\ s.calls[c].st = "free"
  /\ LET i == s.ready[s.sel] IN
     /\ s' = [Back(s, s.sel) EXCEPT !.sel = 0, !.rdy = FALSE, !.calls[c] = [NoCall EXCEPT !.st = "open", !.svc = i, !.q = q]]
     /\ Emit("call", <<c, q>>, Ok, <<<<"call", i, q>>>>)
Resp(c) ==
  LET x == s.calls[c] IN
  CASE x.st = "open" -> s' = [s EXCEPT !.calls[c].reg = TRUE, !.due = @ \ {C(c)}] /\ Emit("resp", <<c>>, Pend, <<>>)
    [] x.st = "done" -> s' = [s EXCEPT !.calls[c] = NoCall, !.due = @ \ {C(c)}]
                        /\ Emit("resp", <<c>>, IF x.r = "ok" THEN <<"ok", 1000 + x.q>> ELSE <<"err", "r" \o ToString(x.q)>>, <<>>)
    [] OTHER -> FALSE
Finish(c, r) ==
  /\ s.calls[c].st = "open"
  /\ s' = [s EXCEPT !.calls[c].st = "done", !.calls[c].r = r, !.due = IF s.calls[c].reg THEN @ \cup {C(c)} ELSE @]
  /\ Emit("finish", <<c, r>>, Ok, <<>>)
Cancel(c) ==
  /\ s.calls[c].st # "free"
  /\ s' = [s EXCEPT !.calls[c] = NoCall, !.due = @ \ {C(c)}]
  /\ Emit("cancel", <<c>>, Ok, <<<<"drop", s.calls[c].svc, s.calls[c].q>>>>)
\* the number of endpoints, and which services still exist; both may lag for those that are being let go
Look ==
  /\ s' = s
  /\ \E D \in SUBSET s.canc, n \in 0..Cardinality(s.canc) :
       LET m == Cardinality(InPend(s)) + Cardinality(InReady(s)) + n IN
       Emit("look", <<>>, <<"ok", m, m = 0, [i \in SV |-> i \in Live(s) \cup D]>>, <<>>)
Mode(i, m) ==
  /\ s.mode[i] # m
  /\ LET w == m = "ready" /\ i \in InPend(s) IN
     s' = [s EXCEPT !.mode[i] = m, !.due = IF w THEN Wake1(s) ELSE @, !.wait = IF w THEN FALSE ELSE @]
  /\ Emit("mode", <<i, m>>, Ok, <<>>)
Load(i, n) == s.load[i] # n /\ s' = [s EXCEPT !.load[i] = n] /\ Emit("load", <<i, n>>, Ok, <<>>)
\* n requests in a row that are answered at once: who got them, and whether evenly (when all loads are equal);
\* a choice made before still stands for the first
Spread(n) ==
  /\ s.q = <<>> /\ Live(s) # {} /\ \A i \in Live(s) : s.mode[i] = "ready"
  /\ s.cfg.kind \notin {"zero", "max"}
  /\ LET p == [Promote(s) EXCEPT !.due = @ \ {H(1)}, !.wait = FALSE, !.fin = IF @ = "queued" THEN "seen" ELSE @] IN
     /\ \E k \in Picks(p) : s' = [Back(p, k) EXCEPT !.sel = 0, !.rdy = FALSE]
     /\ Emit("spread", <<n>>, <<"ok", [k \in KY |-> p.ready[k] # 0 /\ (k \in Picks(p) \/ k = s.sel)], TRUE>>, <<>>)

Do(op, a) ==
  \/ op = "ins" /\ Ins(a[1], a[2])
  \/ op = "rem" /\ Rem(a[1])
  \/ op = "derr" /\ DErr
  \/ op = "dend" /\ DEnd
  \/ op = "poll" /\ Poll
  \/ op = "call" /\ Call(a[1], a[2])
  \/ op = "resp" /\ Resp(a[1])
  \/ op = "finish" /\ Finish(a[1], a[2])
  \/ op = "cancel" /\ Cancel(a[1])
  \/ op = "look" /\ Look
  \/ op = "mode" /\ Mode(a[1], a[2])
  \/ op = "load" /\ Load(a[1], a[2])
  \/ op = "spread" /\ Spread(a[1])
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ /\ s.on
           /\ \/ Poll
              \/ "fixed" \notin Disc /\ Look
              \/ "spread" \in Disc /\ s.sel = 0 /\ Spread(100)
              \/ /\ Len(s.q) < MaxQ
                 /\ \/ "err" \in Disc /\ DErr
                    \/ "end" \in Disc /\ DEnd
                    \/ \E k \in KY :
                         \/ ("fixed" \in Disc => k \in Full(s)) /\ Rem(k)
                         \/ \E i \in SV : ("fixed" \in Disc => k = i) /\ Ins(k, i)
              \/ \E c \in KC : Call(c, c) \/ Resp(c) \/ Cancel(c) \/ \E r \in Rs : Finish(c, r)
              \/ \E i \in SV : (\E m \in Modes : Mode(i, m)) \/ (\E n \in Loads : Load(i, n))

OnePlace == s.on => /\ \A k, j \in KY : (s.ready[k] # 0 => s.ready[k] # s.pend[j]) /\ (k # j /\ s.ready[k] # 0 => s.ready[k] # s.ready[j])
                                        /\ (k # j /\ s.pend[k] # 0 => s.pend[k] # s.pend[j])
                    /\ s.canc \cap Live(s) = {}
                    /\ s.sel # 0 => s.ready[s.sel] # 0
                    /\ s.rdy => s.sel # 0
                    /\ s.wait => InReady(s) = {} /\ \A i \in InPend(s) : s.mode[i] # "ready"
\* a request goes to a member of the set that is ready, and to one only
ToMember == [][ev'.op = "call" => s.ready[s.sel] = ev'.log[1][2]]_<<s, ev>>
\* never the only busiest one of several that are ready
NotBusiest == [][ev'.op = "poll" /\ ev'.r = Ok /\ s.sel = 0 =>
    LET F == Full(s') IN Cardinality(F) > 1 => \E j \in F \ {s'.sel} : Ld(s', s'.sel) <= Ld(s', j)]_<<s, ev>>
\* a removed endpoint gets no request after the balancer saw the removal, an ignored one does no harm
Removed == [][ev'.op = "poll" => \A n \in 1..Len(s.q) : s.q[n][1] = "rem" /\ s'.q = <<>> =>
    (s'.ready[s.q[n][2]] # 0 \/ s'.pend[s.q[n][2]] # 0 => \E m \in n..Len(s.q) : s.q[m][1] = "ins" /\ s.q[m][2] = s.q[n][2])]_<<s, ev>>
Inv == OnePlace
==============================================================================
