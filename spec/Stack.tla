-------------------------------- MODULE Stack --------------------------------
(* Tower's limits put together: a stack cfg.ls of layers, from the outermost to the
   innermost, over one inner service. A layer is [t, a, b] with t =
     climit   at most a requests in flight (a semaphore)
     rate     a requests per window of b ms
     shed     load shedding
     timeout  a ms for each response
     retry    up to a further attempts after an error
     buffer   a slots, a worker that owns everything below
   and each behaves as its own specification says; here they share callers, wake-ups
   and the fate of a request. The layers of a stack exist once per instance: instance
   0 belongs to the worker of the buffer, 1..NH are the handles, NH+k is the clone
   that the retry layer keeps in the response future k for further attempts.

   A task (handle h polled, response k polled, worker) waits if its last poll said so;
   due is what must be woken of those.                                           *)
EXTENDS Common
CONSTANTS NH, NK, Cfgs, Modes, Rs, Advs
VARIABLES s, ev

HS == 1..NH
KS == 1..NK
IS == 0..(NH + NK)
W == "w"

Off == [on |-> FALSE]
Idx(c, t) == {j \in 1..Len(c.ls) : c.ls[j].t = t}
One(S) == IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE
Start(c) ==
  LET L == 1..Len(c.ls) IN
  [on |-> TRUE, cfg |-> c, buf |-> One(Idx(c, "buffer")), ret |-> One(Idx(c, "retry")),
   ex |-> [i \in IS |-> i = 1],
   can |-> [h \in HS |-> FALSE],                       \* the caller may call
   st |-> [j \in L |-> [i \in IS |-> "idle"]],         \* semaphores: idle wait got held
   wt |-> [j \in L |-> [i \in IS |-> ""]],             \* the task that waits
   q |-> [j \in L |-> <<>>], avail |-> [j \in L |-> c.ls[j].a],
   sh |-> [j \in L |-> [i \in IS |-> FALSE]],          \* shed: the inner service was ready
   rt |-> [j \in L |-> [lim |-> FALSE, left |-> 0, rem |-> c.ls[j].a, used |-> 0, wait |-> ""]],
   armed |-> [i \in IS |-> FALSE], iw |-> [i \in IS |-> ""], mode |-> "ready",
   ph |-> [k \in KS |-> "none"],                       \* none queued failed closed shed open ok err panic taken retrying
   at |-> [k \in KS |-> 0], tries |-> [k \in KS |-> 0],
   perm |-> [k \in KS |-> {}],                         \* the limits whose permit the response holds
   tm |-> [k \in KS |-> [j \in L |-> -1]],             \* time left
   chan |-> <<>>, cur |-> 0,                           \* requests in the buffer (0: cancelled there), in the worker (-1)
   w |-> IF Idx(c, "buffer") = {} THEN "gone" ELSE "run", wreg |-> "none", failed |-> "no",
   wtg |-> {}, due |-> {W}]
Lay(t, j) == t.cfg.ls[j]
N(t) == Len(t.cfg.ls)

\* a poll of T starts: whatever T registered before does not count any more
Fresh(t, T) ==
  LET Un(x) == IF x = T THEN "" ELSE x IN
  [t EXCEPT !.due = @ \ {T}, !.wtg = @ \ {T}, !.iw = [i \in IS |-> Un(@[i])],
            !.wt = [j \in 1..N(t) |-> [i \in IS |-> Un(@[j][i])]], !.rt = [j \in 1..N(t) |-> [@[j] EXCEPT !.wait = Un(@)]]]
Wake(t, T) == IF T \in t.wtg THEN [t EXCEPT !.due = @ \cup {T}] ELSE t
\* a slot of layer j is free again: the one who has waited longest gets it
Free(t, j) ==
  IF t.q[j] = <<>> THEN [t EXCEPT !.avail[j] = @ + 1]
  ELSE LET i == Head(t.q[j]) IN Wake([t EXCEPT !.q[j] = Tail(@), !.st[j][i] = "got"], t.wt[j][i])
Acquire(t, j, i, T) ==
  IF t.st[j][i] \in {"held", "got"} THEN [t EXCEPT !.st[j][i] = "held", !.wt[j][i] = ""]
  ELSE IF t.st[j][i] = "wait" THEN [t EXCEPT !.wt[j][i] = T]
  ELSE IF t.avail[j] > 0 THEN [t EXCEPT !.st[j][i] = "held", !.avail[j] = @ - 1]
  ELSE [t EXCEPT !.st[j][i] = "wait", !.q[j] = Append(@, i), !.wt[j][i] = T]
\* the last slot that a failed buffer had given out is back: its worker may end
LastSlot(t, j) == IF j = t.buf /\ t.failed # "no" /\ t.wreg = "rx" /\ t.chan = <<>> /\ ~\E i \in IS : t.st[j][i] \in {"held", "got"}
                  THEN Wake(t, W) ELSE t
GiveUp(t, j, i) ==
  LET u == [t EXCEPT !.st[j][i] = "idle", !.wt[j][i] = "", !.q[j] = Without(@, i)] IN
  IF t.st[j][i] \in {"got", "held"} THEN LastSlot(Free(u, j), j) ELSE u

Closed(t) == t.failed # "no" \/ t.w # "run"
CloseErr(t) == IF t.failed # "no" THEN <<"err", "service", t.failed>> ELSE <<"err", "closed">>

---- \* readiness of instance i from layer j inwards, polled by task T
RECURSIVE PollI(_, _, _, _)
PollI(t, j, i, T) ==
  IF j > N(t) THEN
    IF t.mode = "err1" THEN [t |-> [t EXCEPT !.armed[i] = FALSE, !.iw[i] = ""], r |-> <<"err", "e1">>]
    ELSE IF t.mode = "ready" \/ t.armed[i] THEN [t |-> [t EXCEPT !.armed[i] = TRUE, !.iw[i] = ""], r |-> Ok]
    ELSE [t |-> [t EXCEPT !.iw[i] = T], r |-> Pend]
  ELSE CASE Lay(t, j).t = "climit" ->
              (LET u == Acquire(t, j, i, T) IN IF u.st[j][i] = "held" THEN PollI(u, j + 1, i, T) ELSE [t |-> u, r |-> Pend])
         [] Lay(t, j).t = "buffer" ->
              (IF Closed(t) THEN [t |-> t, r |-> CloseErr(t)]
               ELSE LET u == Acquire(t, j, i, T) IN [t |-> u, r |-> IF u.st[j][i] = "held" THEN Ok ELSE Pend])
         [] Lay(t, j).t = "rate" ->
              (IF t.rt[j].lim /\ t.rt[j].left > 0 THEN [t |-> [t EXCEPT !.rt[j].wait = T], r |-> Pend]
               ELSE PollI(IF t.rt[j].lim THEN [t EXCEPT !.rt[j] = [lim |-> FALSE, left |-> Lay(t, j).b, rem |-> Lay(t, j).a, used |-> 0, wait |-> ""]] ELSE t,
                          j + 1, i, T))
         [] Lay(t, j).t = "shed" ->
              (LET x == PollI(t, j + 1, i, T) IN
               IF x.r[1] = "err" THEN x ELSE [t |-> [x.t EXCEPT !.sh[j][i] = x.r = Ok], r |-> Ok])
         [] OTHER -> PollI(t, j + 1, i, T)

\* request k is given to layer j of instance i
RECURSIVE CallI(_, _, _, _, _)
CallI(t, j, i, k, refuse) ==
  IF j > N(t) THEN [t |-> [t EXCEPT !.armed[i] = FALSE, !.iw[i] = "", !.ph[k] = "open"], log |-> <<<<"call", k>>>>]
  ELSE CASE Lay(t, j).t = "climit" -> CallI([t EXCEPT !.st[j][i] = "idle", !.perm[k] = @ \cup {j}], j + 1, i, k, refuse)
         [] Lay(t, j).t = "buffer" ->
              (LET u == [t EXCEPT !.st[j][i] = "idle"] IN
               IF refuse THEN [t |-> LastSlot(Free([u EXCEPT !.ph[k] = IF t.failed # "no" THEN "failed" ELSE "closed"], j), j), log |-> <<>>]
               ELSE LET v == [u EXCEPT !.ph[k] = "queued", !.chan = Append(@, k)] IN
                    [t |-> IF t.wreg = "rx" THEN Wake(v, W) ELSE v, log |-> <<>>])
         [] Lay(t, j).t = "rate" ->
              (LET new == t.rt[j].left = 0
                   rem == IF new THEN Lay(t, j).a ELSE t.rt[j].rem
                   used == IF new THEN 1 ELSE t.rt[j].used + 1 IN
               CallI([t EXCEPT !.rt[j] = [lim |-> rem <= 1, left |-> IF new THEN Lay(t, j).b ELSE @.left,
                                          rem |-> IF rem > 1 THEN rem - 1 ELSE 0, used |-> used, wait |-> ""]], j + 1, i, k, refuse))
         [] Lay(t, j).t = "shed" ->
              (IF t.sh[j][i] THEN CallI([t EXCEPT !.sh[j][i] = FALSE], j + 1, i, k, refuse)
               ELSE [t |-> [t EXCEPT !.ph[k] = "shed", !.at[k] = j], log |-> <<>>])
         [] Lay(t, j).t = "timeout" -> CallI([t EXCEPT !.tm[k][j] = Lay(t, j).a], j + 1, i, k, refuse)
         [] Lay(t, j).t = "retry" ->
              (LET x == CallI(t, j + 1, i, k, refuse) IN [x EXCEPT !.t.ex[NH + k] = TRUE])

\* the layers of instance i from layer j inwards are dropped (down to the buffer, if it is above)
RECURSIVE DropI(_, _, _)
DropI(t, j, i) ==
  IF j > N(t) THEN [t EXCEPT !.armed[i] = FALSE, !.iw[i] = ""]
  ELSE LET u == CASE Lay(t, j).t \in {"climit", "buffer"} -> GiveUp(t, j, i)
                  [] Lay(t, j).t = "shed" -> [t EXCEPT !.sh[j][i] = FALSE]
                  [] OTHER -> t IN
       IF Lay(t, j).t = "buffer" THEN u ELSE DropI(u, j + 1, i)
Gone(t, j, i) == LET u == [DropI(t, j, i) EXCEPT !.ex[i] = FALSE] IN
  \* the last handle of the buffer tells the worker
  IF u.buf # 0 /\ u.wreg = "rx" /\ ~\E x \in IS \ {0} : u.ex[x] /\ (x <= NH \/ u.ret < u.buf) THEN Wake(u, W) ELSE u

\* the response future k is dropped from layer j inwards
RECURSIVE FreeAll(_, _)
FreeAll(t, S) == IF S = {} THEN t ELSE LET j == CHOOSE x \in S : TRUE IN FreeAll(Free(t, j), S \ {j})
FutDrop(t, k, j) ==
  LET rel == {x \in t.perm[k] : x >= j}
      u == FreeAll([t EXCEPT !.perm[k] = @ \ rel, !.tm[k] = [m \in 1..N(t) |-> IF m >= j THEN -1 ELSE @[m]],
                             !.chan = [n \in 1..Len(@) |-> IF @[n] = k THEN 0 ELSE @[n]], !.cur = IF @ = k THEN -1 ELSE @,
                             !.ph[k] = "none", !.at[k] = 0], rel)
      v == IF u.ret >= j /\ u.ret # 0 /\ u.ex[NH + k] THEN Gone([u EXCEPT !.tries[k] = 0], u.ret + 1, NH + k) ELSE u IN
  [t |-> v, log |-> IF t.ph[k] \in {"open", "ok", "err", "panic"} THEN <<<<"drop", k>>>> ELSE <<>>]

---- \* the response future k is polled from layer j inwards, by task T
RECURSIVE PollF(_, _, _, _)
RECURSIVE RetryF(_, _, _, _)
PollF(t, j, k, T) ==
  IF j > N(t) THEN
    CASE t.ph[k] = "ok" -> [t |-> [t EXCEPT !.ph[k] = "taken"], r |-> <<"ok", 1000 + k>>, log |-> <<>>]
      [] t.ph[k] = "err" -> [t |-> [t EXCEPT !.ph[k] = "taken"], r |-> <<"err", "r7">>, log |-> <<>>]
      [] t.ph[k] = "panic" -> [t |-> [t EXCEPT !.ph[k] = "taken"], r |-> <<"panic">>, log |-> <<>>]
      [] OTHER -> [t |-> t, r |-> Pend, log |-> <<>>]
  ELSE CASE Lay(t, j).t = "shed" /\ t.ph[k] = "shed" /\ t.at[k] = j -> [t |-> t, r |-> <<"err", "overloaded">>, log |-> <<>>]
         [] Lay(t, j).t = "buffer" /\ t.ph[k] = "queued" -> [t |-> t, r |-> Pend, log |-> <<>>]
         [] Lay(t, j).t = "buffer" /\ t.ph[k] = "failed" -> [t |-> t, r |-> <<"err", "service", t.failed>>, log |-> <<>>]
         [] Lay(t, j).t = "buffer" /\ t.ph[k] = "closed" -> [t |-> t, r |-> <<"err", "closed">>, log |-> <<>>]
         [] Lay(t, j).t = "timeout" ->
              (LET x == PollF(t, j + 1, k, T) IN
               IF x.r = Pend /\ t.tm[k][j] = 0 THEN [x EXCEPT !.r = <<"err", "elapsed">>] ELSE x)
         [] Lay(t, j).t = "retry" -> RetryF(t, j, k, T)
         [] OTHER -> PollF(t, j + 1, k, T)
RetryF(t, j, k, T) ==
  IF t.ph[k] = "retrying" THEN
    LET x == PollI(t, j + 1, NH + k, T) IN
    IF x.r # Ok THEN [t |-> x.t, r |-> x.r, log |-> <<>>]
    ELSE LET y == CallI(x.t, j + 1, NH + k, k, FALSE)
             z == RetryF(y.t, j, k, T) IN [z EXCEPT !.log = y.log \o @]
  ELSE LET x == PollF(t, j + 1, k, T) IN
       IF x.r[1] = "err" /\ x.t.tries[k] < Lay(t, j).a
       THEN LET d == FutDrop(x.t, k, j + 1)
                z == RetryF([d.t EXCEPT !.ph[k] = "retrying", !.tries[k] = @ + 1], j, k, T) IN
            [z EXCEPT !.log = x.log \o <<<<"again", k>>>> \o d.log \o @]
       ELSE x

---- \* the worker
Told(t, k) == Wake(t, C(k))
RECURSIVE RefuseAll(_, _)
RefuseAll(t, ks) ==
  IF ks = <<>> THEN t
  ELSE LET k == Head(ks) IN
       RefuseAll(IF k <= 0 THEN t ELSE Told([t EXCEPT !.ph[k] = "closed"], k), Tail(ks))
RECURSIVE TellWaiters(_, _)
TellWaiters(t, is) == IF is = <<>> THEN t ELSE TellWaiters(Wake(t, t.wt[t.buf][Head(is)]), Tail(is))
Close(t) == LET u == TellWaiters(t, t.q[t.buf]) IN
            [u EXCEPT !.q[t.buf] = <<>>, !.st[t.buf] = [i \in IS |-> IF @[i] = "wait" THEN "idle" ELSE @[i]]]
WorkerGone(t) ==
  LET ks == (IF t.cur # 0 THEN <<t.cur>> ELSE <<>>) \o t.chan
      u == Close(RefuseAll(t, ks)) IN
  DropI([u EXCEPT !.chan = <<>>, !.cur = 0, !.w = "gone", !.wreg = "none", !.due = @ \ {W}, !.wtg = @ \ {W}], t.buf + 1, 0)
Senders(t) == {x \in IS \ {0} : t.ex[x] /\ (x <= NH \/ t.ret < t.buf)}
Outstanding(t) == Cardinality({i \in IS : t.st[t.buf][i] \in {"held", "got"}})
RECURSIVE Run(_, _)
Process(t, k, log) ==
  IF t.failed # "no" THEN Run(Told([t EXCEPT !.ph[k] = "failed"], k), log)
  ELSE LET x == PollI(t, t.buf + 1, 0, W) IN
       IF x.r = Pend THEN [t |-> [x.t EXCEPT !.cur = k, !.wreg = "inner", !.wtg = @ \cup {W}], r |-> Pend, log |-> log]
       ELSE IF x.r = Ok THEN (LET y == CallI(x.t, t.buf + 1, 0, k, FALSE) IN Run(Told(y.t, k), log \o y.log))
       ELSE Run(Told(Close([x.t EXCEPT !.failed = x.r[2], !.ph[k] = "failed"]), k), log)
Run(t, log) ==
  IF t.cur = -1 THEN Run([t EXCEPT !.cur = 0], log)
  ELSE IF t.cur # 0 THEN Process([t EXCEPT !.cur = 0], t.cur, log)
  ELSE IF t.chan # <<>> THEN
       (LET k == Head(t.chan)  u == Free([t EXCEPT !.chan = Tail(@)], t.buf) IN
        IF k = 0 THEN Run(u, log) ELSE Process(u, k, log))
  ELSE IF Senders(t) = {} \/ (t.failed # "no" /\ Outstanding(t) = 0) THEN [t |-> WorkerGone(t), r |-> <<"done">>, log |-> log]
  ELSE [t |-> [t EXCEPT !.wreg = "rx", !.wtg = @ \cup {W}], r |-> Pend, log |-> log]
RunWorker(t) == Run([Fresh(t, W) EXCEPT !.wreg = "none"], <<>>)
\* a worker that was spawned runs whenever it was woken
RECURSIVE Settle(_, _)
Settle(t, log) == IF t.cfg.auto /\ t.w = "run" /\ W \in t.due
                  THEN LET x == RunWorker(t) IN Settle(x.t, log \o x.log) ELSE [t |-> t, log |-> log]

---- \* operations
\* the outcome t of an operation with result r
\* (it may also run without need, by a timer left over: that matters if the request it holds was cancelled)
Emit(op, a, t, r, log) ==
  \E needless \in IF t.cfg.auto /\ t.w = "run" /\ t.cur = -1 THEN BOOLEAN ELSE {FALSE} :
  LET x == Settle(IF needless THEN [t EXCEPT !.due = @ \cup {W}] ELSE t, log) IN
  s' = x.t /\ ev' = Event(op, a, r, x.log, IF x.t.cfg.auto \/ x.t.wreg = "none" THEN x.t.due \ {W} ELSE x.t.due)
Boot(c) == Emit("boot", <<c>>, Start(c), Ok, <<>>)
Begin(T) == Fresh(s, T)
Waits(t, T, r) == IF r = Pend THEN [t EXCEPT !.wtg = @ \cup {T}] ELSE t
Poll(h) ==
  /\ s.ex[h]
  /\ LET x == PollI(Begin(H(h)), 1, h, H(h)) IN
     Emit("poll", <<h>>, Waits([x.t EXCEPT !.can[h] = x.r = Ok], H(h), x.r), x.r, <<>>)
Call(h, k) ==
  /\ s.ex[h] /\ s.can[h] /\ s.ph[k] = "none"
  /\ \E refuse \in IF s.w = "run" THEN (IF Closed(s) THEN BOOLEAN ELSE {FALSE}) ELSE {TRUE} :
       LET x == CallI([s EXCEPT !.can[h] = FALSE], 1, h, k, refuse) IN Emit("call", <<h, k>>, x.t, Ok, x.log)
Live(k) == s.ph[k] # "none"
Resp(k) ==
  /\ Live(k)
  /\ LET x == PollF(Begin(C(k)), 1, k, C(k)) IN
     IF x.r = Pend THEN Emit("resp", <<k>>, Waits(x.t, C(k), Pend), Pend, x.log)
     ELSE LET d == FutDrop(x.t, k, 1) IN Emit("resp", <<k>>, d.t, x.r, x.log \o d.log)
Cancel(k) == Live(k) /\ LET d == FutDrop(Begin(C(k)), k, 1) IN Emit("cancel", <<k>>, d.t, Ok, d.log)
Finish(k, r) == s.ph[k] = "open" /\ Emit("finish", <<0, k, r>>, Told([s EXCEPT !.ph[k] = r], k), Ok, <<>>)
Clonable == \A j \in Idx(s.cfg, "rate") : s.buf # 0 /\ s.buf < j
Clone(h, h2) ==
  /\ Clonable /\ s.ex[h] /\ ~s.ex[h2] /\ \A i \in HS : i < h2 => s.ex[i]
  /\ Emit("clone", <<h, h2>>, [s EXCEPT !.ex[h2] = TRUE], Ok, <<>>)
Drop(h) == s.ex[h] /\ Emit("drop", <<h>>, Gone([Begin(H(h)) EXCEPT !.can[h] = FALSE], 1, h), Ok, <<>>)
Mode(m) ==
  /\ s.mode # m
  /\ Emit("mode", <<0, m>>, IF m = "pending" THEN [s EXCEPT !.mode = m]
       ELSE [s EXCEPT !.mode = m, !.iw = [i \in IS |-> ""], !.due = @ \cup ({s.iw[i] : i \in IS} \cap s.wtg)], Ok, <<>>)
Less(x, d) == IF x > d THEN x - d ELSE 0
Advance(d) ==
  LET L == 1..N(s)
      rt == [j \in L |-> [s.rt[j] EXCEPT !.left = Less(@, d)]]
      tm == [k \in KS |-> [j \in L |-> IF s.tm[k][j] = -1 THEN -1 ELSE Less(s.tm[k][j], d)]] IN
  Emit("adv", <<d>>, [s EXCEPT !.rt = rt, !.tm = tm,
        !.due = @ \cup ((({rt[j].wait : j \in {x \in L : rt[x].left = 0}}) \cup {C(k) : k \in {x \in KS : \E j \in L : tm[x][j] = 0}}) \cap s.wtg)],
       Ok, <<>>)
\* (whether a slot that it had given out keeps a failed worker alive is open: nothing can come of it but the same failure)
Worker ==
  /\ ~s.cfg.auto /\ s.w = "run"
  /\ LET x == RunWorker(s)
         out == {x} \cup (IF x.r = Pend /\ x.t.failed # "no" /\ x.t.wreg = "rx" THEN {[x EXCEPT !.t = WorkerGone(@), !.r = <<"done">>]} ELSE {}) IN
     \E y \in out : Emit("worker", <<>>, y.t, y.r, y.log)

Do(op, a) ==
  \/ op = "poll" /\ Poll(a[1])
  \/ op = "call" /\ Call(a[1], a[2])
  \/ op = "resp" /\ Resp(a[1])
  \/ op = "finish" /\ Finish(a[2], a[3])
  \/ op = "cancel" /\ Cancel(a[1])
  \/ op = "clone" /\ Clone(a[1], a[2])
  \/ op = "drop" /\ Drop(a[1])
  \/ op = "mode" /\ Mode(a[2])
  \/ op = "adv" /\ Advance(a[1])
  \/ op = "worker" /\ Worker
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
FirstFree == {k \in KS : s.ph[k] = "none" /\ \A j \in KS : j < k => s.ph[j] # "none"}
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ /\ s.on
           /\ \/ \E h \in HS : Poll(h) \/ Drop(h) \/ (\E h2 \in HS : Clone(h, h2)) \/ \E k \in FirstFree : Call(h, k)
              \/ \E k \in KS : Resp(k) \/ Cancel(k) \/ \E r \in Rs : Finish(k, r)
              \/ \E m \in Modes : Mode(m)
              \/ \E d \in Advs : Advance(d)
              \/ Worker

---- \* the guarantees of all layers at once
Sem(t) == {"climit", "buffer"}
Owners(j) == Cardinality({i \in IS : s.st[j][i] \in {"got", "held"}})
InUse(j) == Cardinality({k \in KS : j \in s.perm[k]})
\* no permit and no slot is ever lost or invented
Conserved == s.on => \A j \in 1..N(s) :
   /\ Lay(s, j).t = "climit" => s.avail[j] + Owners(j) + InUse(j) = Lay(s, j).a
   /\ Lay(s, j).t = "buffer" /\ s.w = "run" => s.avail[j] + Owners(j) + Len(s.chan) = Lay(s, j).a
   /\ Lay(s, j).t = "rate" => s.rt[j].used <= Lay(s, j).a
   /\ s.q[j] # <<>> => s.avail[j] = 0
\* what is open at the inner service holds a permit of every limit above it
Bounded == s.on => \A k \in KS : s.ph[k] \in {"open", "ok", "err", "panic"} =>
   \A j \in Idx(s.cfg, "climit") : j \in s.perm[k]
\* nothing that is over keeps a permit
Returned == s.on => \A k \in KS : s.ph[k] = "none" => s.perm[k] = {} /\ ~s.ex[NH + k]
\* whoever waits and was not woken would have to wait again
NoLostWake == s.on =>
   /\ \A h \in HS : s.ex[h] /\ H(h) \in s.wtg \ s.due => PollI(s, 1, h, H(h)).r = Pend
   /\ \A k \in KS : Live(k) /\ C(k) \in s.wtg \ s.due => PollF(s, 1, k, C(k)).r = Pend
   \* (a request that is cancelled while the worker holds it does not wake the worker)
   /\ s.w = "run" /\ W \in s.wtg \ s.due /\ s.cur # -1 => RunWorker(s).r = Pend /\ RunWorker(s).log = <<>>
\* the inner service is called only when ready, and never after it failed below a buffer
CalledReady == [][s.on /\ s'.on /\ ev'.op # "boot" => \A n \in 1..Len(ev'.log) : ev'.log[n][1] = "call" => s'.mode # "err1" \/ s.armed # s'.armed]_<<s, ev>>
Inv == Conserved /\ Bounded /\ Returned /\ NoLostWake
===============================================================================
