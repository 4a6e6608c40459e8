-------------------------------- MODULE Bulk ---------------------------------
(* Quantities instead of individuals: what the parts that count something - slots, permits,
   allowance, services, outstanding responses, attempts - do when the numbers are large (the
   other specifications follow every request and therefore stay with small ones).  Each
   operation stands for many steps of one caller; a configuration is one part and its size n.

     buffer  a buffer of bound n, its worker polled by "work"
     climit  a concurrency limit of n (cfg.how: how it is built)
     rate    n requests per period
     steer   n services under a Steer
     cache   n keys of a ready cache
     all     CallAll, ordered or unordered (cfg.how)
     retry   a policy that asks for m further attempts
     allow   the test mock's allowance
     balance a balancer and up to n endpoints
     load    the load (cfg.how: which) of a service with many requests outstanding
     hedge   a hedge that wants n latencies, and the median of them (cfg.how = 3: n are given) *)
EXTENDS Common
CONSTANTS Cfgs, Ms
VARIABLES s, ev

Off == [on |-> FALSE]
Start(c) == [on |-> TRUE, cfg |-> c, n |-> IF c.part = "allow" THEN 0 ELSE c.n,
             used |-> 0, cur |-> 0, wait |-> FALSE, due |-> {},
             slow |-> 0, up |-> IF c.part = "hedge" /\ c.how = 3 THEN c.n ELSE 0, down |-> 0, know |-> {}, sure |-> FALSE, new |-> TRUE, bad |-> 0]
Emit(op, a, r) == ev' = Event(op, a, r, <<>>, s'.due)
Boot(c) == s' = Start(c) /\ Emit("boot", <<c>>, Ok)
Part(P) == s.cfg.part \in P
Wake(t) == IF t.wait THEN [t EXCEPT !.due = {H(1)}, !.wait = FALSE] ELSE t

\* ---- buffer, climit, rate, allow: n places
Queued == IF Part({"buffer"}) THEN s.used - s.cur ELSE s.used
\* readiness and a request, m times or until there is no readiness
Fill(m) ==
  /\ Part({"buffer", "climit", "rate", "allow"})
  /\ LET g == Min(m, s.n - Queued) IN
     /\ s' = [s EXCEPT !.used = @ + g, !.wait = g < m, !.due = {}]
     /\ Emit("fill", <<m>>, <<"ok", g>>)
\* m of the requests end
Free(m) ==
  /\ Part({"climit"}) /\ m \in 1..s.used
  /\ s' = Wake([s EXCEPT !.used = @ - m])
  /\ Emit("free", <<m>>, Ok)
\* the inner service takes m more requests: they are the oldest ones, in order, and get their answers;
\* the worker waits with the next one in hand
Work(m) ==
  /\ Part({"buffer"})
  /\ LET d == Min(m, s.used)
         t == [s EXCEPT !.used = @ - d, !.cur = IF s.used > d THEN 1 ELSE 0] IN
     /\ s' = IF t.used - t.cur < Queued THEN Wake(t) ELSE t
     /\ Emit("work", <<m>>, <<"ok", d, TRUE>>)
\* a whole period goes by
Turn ==
  /\ Part({"rate"})
  /\ s' = Wake([s EXCEPT !.used = 0])
  /\ Emit("turn", <<>>, Ok)
\* the test allows m requests from now on
Allow(m) ==
  /\ Part({"allow"})
  /\ s' = (IF m > 0 THEN Wake([s EXCEPT !.n = m, !.used = 0]) ELSE [s EXCEPT !.n = 0, !.used = 0])
  /\ Emit("allow", <<m>>, Ok)

\* ---- steer: at most one of the services is not ready at a time (0: all are ready)
Stall(j) == /\ Part({"steer"}) /\ s.slow = 0 /\ (s.sure \/ s.new) /\ j \in 1..s.n
            /\ s' = [s EXCEPT !.slow = j] /\ Emit("stall", <<j>>, Ok)
GoOn == /\ Part({"steer"}) /\ s.slow # 0
        /\ s' = Wake([s EXCEPT !.slow = 0]) /\ Emit("goon", <<>>, Ok)
\* the services known to be ready are all but those in know; not sure: nothing is known
Ready == s.slow = 0 \/ (s.sure /\ s.slow \notin s.know)
SPoll == /\ Part({"steer"})
         /\ s' = IF Ready THEN [s EXCEPT !.know = {}, !.sure = TRUE, !.new = FALSE, !.wait = FALSE, !.due = {}]
                 ELSE [s EXCEPT !.sure = FALSE, !.new = FALSE, !.wait = TRUE, !.due = {}]
         /\ Emit("spoll", <<>>, IF Ready THEN Ok ELSE Pend)
\* a request for service j, right after readiness
Route(j) == /\ Part({"steer"}) /\ s.sure /\ s.know = {} /\ j \in 1..s.n
            /\ s' = [s EXCEPT !.know = {j}] /\ Emit("route", <<j>>, <<"ok", j>>)

\* ---- cache: used keys, of which up are ready, down are not, the others are pending although they would be ready
Idle == s.used - s.up - s.down
Push(m) == /\ Part({"cache"}) /\ s.used + m <= s.n
           /\ s' = [s EXCEPT !.used = @ + m, !.down = @ + m] /\ Emit("push", <<m>>, Ok)
Rise(m) == /\ Part({"cache"}) /\ m \in 1..s.down
           /\ s' = Wake([s EXCEPT !.down = @ - m]) /\ Emit("rise", <<m>>, Ok)
Pends == /\ Part({"cache"})
         /\ s' = [s EXCEPT !.up = s.used - s.down, !.wait = s.down > 0, !.due = {}]
         /\ Emit("pend", <<>>, IF s.down = 0 THEN Ok ELSE Pend)
\* m of the ready services are used; all the others stay ready
Use(m) == /\ Part({"cache"}) /\ m \in 1..s.up
          /\ s' = [s EXCEPT !.up = @ - m, !.wait = FALSE, !.due = {}] /\ Emit("use", <<m>>, Ok)
Look == /\ Part({"cache"}) /\ s' = s /\ Emit("look", <<>>, <<"ok", s.up, s.used - s.up>>)

\* ---- balance: used endpoints are in the set, up of them ready, bad about to fail, the others not ready (down);
\* sure: it reported readiness and nothing happened since
Down == s.used - s.up - s.bad
Rest(t) == Wake([t EXCEPT !.sure = FALSE])
Bal == Part({"balance"})
Join(m) == Bal /\ s.used + m <= s.n /\ s' = Rest([s EXCEPT !.used = @ + m]) /\ Emit("join", <<m>>, Ok)
\* m of the ready (k = 1) or of the other ones are removed
Part2(m, k) == /\ Bal /\ m \in 1..(IF k = 1 THEN s.up ELSE Down)
               /\ s' = Rest(IF k = 1 THEN [s EXCEPT !.used = @ - m, !.up = @ - m] ELSE [s EXCEPT !.used = @ - m])
               /\ Emit("part", <<m, k>>, Ok)
Grow(m) == Bal /\ m \in 1..Down /\ s' = Rest([s EXCEPT !.up = @ + m]) /\ Emit("grow", <<m>>, Ok)
\* (an endpoint that failed is not something to wait for)
Break(m) == Bal /\ m \in 1..Down /\ s' = [s EXCEPT !.bad = @ + m, !.sure = FALSE] /\ Emit("break", <<m>>, Ok)
\* everything is taken up, the failed ones are gone
BPoll == LET ok == s.up > 0 IN
         /\ Bal /\ s' = [s EXCEPT !.used = @ - s.bad, !.bad = 0, !.sure = ok, !.wait = ~ok, !.due = {}]
         /\ Emit("bpoll", <<>>, <<IF ok THEN "ok" ELSE "pending", s.used - s.bad>>)
\* m times: readiness, then a request, which a ready endpoint gets and answers
Send(m) == /\ Bal /\ s.sure /\ s' = [s EXCEPT !.sure = FALSE] /\ Emit("send", <<m>>, <<"ok", m>>)

\* ---- load: m more requests; m of them end; what the load says of their number
More(m) == Part({"load"}) /\ s' = [s EXCEPT !.used = @ + m] /\ Emit("more", <<m>>, <<"ok", s.used + m>>)
Less(m) == Part({"load"}) /\ m \in 1..s.used /\ s' = [s EXCEPT !.used = @ - m] /\ Emit("less", <<m>>, <<"ok", s.used - m>>)

\* ---- all: m more requests come; m of the outstanding ones are answered and come out
Feed(m) == /\ Part({"all"}) /\ s' = [s EXCEPT !.used = @ + m] /\ Emit("feed", <<m>>, <<"ok", s.used + m>>)
Yield(m) == /\ Part({"all"}) /\ m \in 1..s.used /\ s' = [s EXCEPT !.used = @ - m] /\ Emit("yield", <<m>>, <<"ok", m, TRUE>>)

\* ---- hedge: of this period used short latencies and slow long ones are known, of the last one up and down;
\* m requests are answered at once (k = 1) or late, a period goes by, and how often a request without an answer is sent
Hed == Part({"hedge"})
Learn(m, k) == /\ Hed /\ s' = IF k = 1 THEN [s EXCEPT !.used = @ + m] ELSE [s EXCEPT !.slow = @ + m]
               /\ Emit("learn", <<m, k>>, Ok)
HTurn == /\ Hed /\ s' = [s EXCEPT !.up = s.used, !.down = s.slow, !.used = 0, !.slow = 0] /\ Emit("hturn", <<>>, Ok)
Due2 == s.up + s.down >= s.n /\ s.up >= s.down
HAsk == /\ Hed /\ s' = s /\ Emit("hask", <<>>, <<"ok", IF Due2 THEN 2 ELSE 1>>)

\* ---- retry: a request for which m further attempts are asked
Ask(m) == /\ Part({"retry"}) /\ s' = s /\ Emit("ask", <<m>>, <<"ok", m + 1>>)

Do(op, a) ==
  \/ op = "fill" /\ Fill(a[1])
  \/ op = "free" /\ Free(a[1])
  \/ op = "work" /\ Work(a[1])
  \/ op = "turn" /\ Turn
  \/ op = "allow" /\ Allow(a[1])
  \/ op = "stall" /\ Stall(a[1])
  \/ op = "goon" /\ GoOn
  \/ op = "spoll" /\ SPoll
  \/ op = "route" /\ Route(a[1])
  \/ op = "push" /\ Push(a[1])
  \/ op = "rise" /\ Rise(a[1])
  \/ op = "pend" /\ Pends
  \/ op = "use" /\ Use(a[1])
  \/ op = "look" /\ Look
  \/ op = "feed" /\ Feed(a[1])
  \/ op = "yield" /\ Yield(a[1])
  \/ op = "ask" /\ Ask(a[1])
  \/ op = "join" /\ Join(a[1])
  \/ op = "part" /\ Part2(a[1], a[2])
  \/ op = "grow" /\ Grow(a[1])
  \/ op = "break" /\ Break(a[1])
  \/ op = "bpoll" /\ BPoll
  \/ op = "send" /\ Send(a[1])
  \/ op = "more" /\ More(a[1])
  \/ op = "less" /\ Less(a[1])
  \/ op = "learn" /\ Learn(a[1], a[2])
  \/ op = "hturn" /\ HTurn
  \/ op = "hask" /\ HAsk
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ /\ s.on
           /\ \/ Turn \/ HTurn \/ HAsk \/ GoOn \/ SPoll \/ Pends \/ Look \/ BPoll
              \/ \E m \in Ms : Fill(m) \/ Free(m) \/ Work(m) \/ Allow(m) \/ Stall(m) \/ Route(m)
                               \/ Push(m) \/ Rise(m) \/ Use(m) \/ (s.used + m <= 4 /\ Feed(m)) \/ Yield(m) \/ Ask(m)
                               \/ Join(m) \/ Part2(m, 0) \/ Part2(m, 1) \/ Grow(m) \/ Break(m) \/ Send(m)
                               \/ (s.used + m <= 4 /\ More(m)) \/ Less(m)
                               \/ (s.used + s.slow + m <= 6 /\ (Learn(m, 0) \/ Learn(m, 1)))

\* never more than the bound, and nobody waits while there is room
Inv == s.on =>
  /\ Part({"buffer", "climit", "rate", "allow"}) => Queued \in 0..s.n /\ (s.wait => Queued = s.n)
  /\ Part({"cache"}) => Idle >= 0 /\ (s.wait => s.up + s.down = s.used)
  /\ Part({"steer"}) /\ s.wait => s.slow # 0
  /\ Hed /\ ev.op = "hask" /\ ev.r[2] = 2 => s.up + s.down >= s.n
  /\ Bal => Down >= 0 /\ (s.wait => s.up = 0) /\ (s.sure => s.up > 0)
==============================================================================
