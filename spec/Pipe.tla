--------------------------------- MODULE Pipe ---------------------------------
(* tower_layer + tower::builder + the combinators of tower::util: a pipeline of
   stages around an inner service. cfg.pipe lists the stages from the outermost to
   the innermost, however they were put together (ServiceBuilder, Stack, tuples,
   nested layers, extension methods): a request passes the stages in this order,
   the response in the reverse order, and every stage acts exactly once.

   Stages that act:  req      map_request        resp    map_response
                     err      map_err            result  map_result
                     then     then (async)       andthen and_then (async)
                     future   map_future         filter  a synchronous predicate
   every other stage (identity, boxes, either, optional layers that are absent,
   limits that never bind) is transparent, and so are the adapters around makers of
   services (MakeService, IntoService, AsService, MakeConnection, MakeBalance).

   Requests and responses are numbers below P, errors are 200000 and above.    *)
EXTENDS Common
CONSTANTS NH, NK, Cfgs, Modes, Rs
VARIABLES s, ev
HS == 1..NH
KS == 1..NK
P == 100003
F(i, v) == (v * 17 + i) % P
G(i, e) == 200000 + ((e * 17 + i) % P)

\* inner services that are always ready; the last two answer at once: Optional(None), Shared
Always == {"fn", "none", "shared"}
Immediate(l) == CASE l = "none" -> <<"err", 500000>> [] l = "shared" -> <<"ok", 7>> [] OTHER -> <<"open">>

Off == [on |-> FALSE]
NoF == [at |-> 0, req |-> 0, res |-> <<"none">>, polled |-> FALSE]
\* a call in flight: at = N+1: at the inner service; at = i: at the asynchronous function
\* (or the rejection) of stage i; res = <<"open">> until that has completed
Start(c) == [on |-> TRUE, cfg |-> c,
             st |-> [h \in HS |-> h = 1],
             ready |-> [h \in HS |-> FALSE], armed |-> [h \in HS |-> FALSE], wait |-> [h \in HS |-> FALSE],
             mode |-> "ready", f |-> [k \in KS |-> NoF], due |-> {}]
Emit(op, a, r, log) == ev' = Event(op, a, r, log, s'.due)
Boot(c) == s' = Start(c) /\ Emit("boot", <<c>>, Ok, <<>>)
Stage(i) == s.cfg.pipe[i]
N == Len(s.cfg.pipe)

\* an error of the readiness check passes the stages outwards
RECURSIVE PollErr(_, _, _)
PollErr(i, e, log) == IF i = 0 THEN [e |-> e, log |-> log]
                      ELSE IF Stage(i) = "err" THEN PollErr(i - 1, G(i, e), Append(log, <<"err", i, e>>))
                      ELSE PollErr(i - 1, e, log)
Poll(h) ==
  /\ s.st[h]
  /\ LET t == [s EXCEPT !.due = @ \ {H(h)}, !.wait[h] = FALSE, !.ready[h] = FALSE] IN
     IF s.cfg.leaf \in Always THEN s' = [t EXCEPT !.ready[h] = TRUE] /\ Emit("poll", <<h>>, Ok, <<>>)
     ELSE IF s.mode = "err1" THEN LET x == PollErr(N, 1, <<>>) IN s' = [t EXCEPT !.armed[h] = FALSE] /\ Emit("poll", <<h>>, <<"err", x.e>>, x.log)
     ELSE IF s.mode = "ready" \/ s.armed[h] THEN s' = [t EXCEPT !.armed[h] = TRUE, !.ready[h] = TRUE] /\ Emit("poll", <<h>>, Ok, <<>>)
     ELSE s' = [t EXCEPT !.wait[h] = TRUE] /\ Emit("poll", <<h>>, Pend, <<>>)

\* the call passes the stages inwards
RECURSIVE In(_, _, _)
In(i, v, log) ==
  IF i > N THEN [at |-> i, v |-> v, res |-> Immediate(s.cfg.leaf),
                 log |-> IF Immediate(s.cfg.leaf)[1] = "open" THEN Append(log, <<"call", v>>) ELSE log]
  ELSE CASE Stage(i) = "req" -> In(i + 1, F(i, v), Append(log, <<"req", i, v>>))
         [] Stage(i) = "filter" ->
              IF v % 3 = 0 THEN [at |-> i, v |-> v, res |-> <<"err", 400000 + v>>, log |-> Append(log, <<"filter", i, v>>)]
              ELSE In(i + 1, v, Append(log, <<"filter", i, v>>))
         [] OTHER -> In(i + 1, v, log)
\* map_future functions see the future on the way out, before it is polled
RECURSIVE Futs(_, _)
Futs(i, log) == IF i = 0 THEN log ELSE Futs(i - 1, IF Stage(i) = "future" THEN Append(log, <<"fut", i>>) ELSE log)
Call(h, k) ==
  /\ s.st[h] /\ s.ready[h] /\ s.f[k].at = 0
  /\ LET x == In(1, k, <<>>) IN
     /\ s' = [s EXCEPT !.ready[h] = FALSE, !.armed[h] = IF x.at > N THEN FALSE ELSE @, !.f[k] = [at |-> x.at, req |-> x.v, res |-> x.res, polled |-> FALSE]]
     /\ Emit("call", <<h, k>>, Ok, Futs(x.at - 1, x.log))

\* the result passes the stages outwards, up to an asynchronous one that must run first
RECURSIVE Out(_, _, _)
Out(res, i, log) ==
  IF i = 0 THEN [done |-> TRUE, res |-> res, log |-> log, at |-> 0, req |-> 0]
  ELSE LET v == res[2]
           go(r, x) == Out(r, i - 1, Append(log, x)) IN
       CASE Stage(i) = "resp" /\ res[1] = "ok" -> go(<<"ok", F(i, v)>>, <<"resp", i, v>>)
         [] Stage(i) = "err" /\ res[1] = "err" -> go(<<"err", G(i, v)>>, <<"err", i, v>>)
         [] Stage(i) = "result" /\ res[1] = "ok" -> go(IF v % 2 = 0 THEN <<"ok", F(i, v)>> ELSE <<"err", G(i, v)>>, <<"result", i, "ok", v>>)
         [] Stage(i) = "result" /\ res[1] = "err" -> go(<<"ok", F(i, v)>>, <<"result", i, "err", v>>)
         [] Stage(i) = "future" /\ res[1] = "ok" -> go(<<"ok", F(i, v)>>, <<"futok", i, v>>)
         [] Stage(i) = "then" -> [done |-> FALSE, res |-> <<"open">>, log |-> Append(log, <<"then", i, v>>), at |-> i, req |-> v]
         [] Stage(i) = "andthen" /\ res[1] = "ok" -> [done |-> FALSE, res |-> <<"open">>, log |-> Append(log, <<"andthen", i, v>>), at |-> i, req |-> v]
         [] OTHER -> Out(res, i - 1, log)
Resp(k) ==
  /\ s.f[k].at > 0
  /\ LET t == [s EXCEPT !.due = @ \ {C(k)}] IN
     IF s.f[k].res[1] = "open" THEN s' = [t EXCEPT !.f[k].polled = TRUE] /\ Emit("resp", <<k>>, Pend, <<>>)
     ELSE LET x == Out(s.f[k].res, s.f[k].at - 1, <<>>) IN
          IF x.done THEN s' = [t EXCEPT !.f[k] = NoF] /\ Emit("resp", <<k>>, x.res, x.log)
          ELSE s' = [t EXCEPT !.f[k] = [at |-> x.at, req |-> x.req, res |-> <<"open">>, polled |-> TRUE]] /\ Emit("resp", <<k>>, Pend, x.log)
IdOf(k) == IF s.f[k].at > N THEN 0 ELSE s.f[k].at
Finish(k, r) ==
  /\ s.f[k].at > 0 /\ s.f[k].res[1] = "open"
  /\ s' = [s EXCEPT !.f[k].res = IF r = "ok" THEN <<"ok", 1000 + s.f[k].req>> ELSE <<"err", 300000 + s.f[k].req>>,
                    !.due = IF s.f[k].polled THEN @ \cup {C(k)} ELSE @]
  /\ Emit("finish", <<IdOf(k), s.f[k].req, r>>, Ok, <<>>)
FinishReq(id, q, r) == \E k \in KS : s.f[k].at > 0 /\ IdOf(k) = id /\ s.f[k].req = q /\ Finish(k, r)
Cancel(k) ==
  /\ s.f[k].at > 0
  /\ s' = [s EXCEPT !.f[k] = NoF, !.due = @ \ {C(k)}]
  /\ Emit("cancel", <<k>>, Ok, CASE s.f[k].at > N /\ Immediate(s.cfg.leaf)[1] # "open" -> <<>>
                                 [] s.f[k].at > N /\ Immediate(s.cfg.leaf)[1] = "open" -> <<<<"drop", s.f[k].req>>>>
                                 [] s.f[k].at <= N -> IF Stage(s.f[k].at) = "filter" THEN <<>> ELSE <<<<"drop", s.f[k].at, s.f[k].req>>>>)
Clone(h, h2) ==
  /\ s.st[h] /\ ~s.st[h2] /\ \A i \in HS : i < h2 => s.st[i]
  /\ s' = [s EXCEPT !.st[h2] = TRUE, !.armed[h2] = FALSE, !.ready[h2] = FALSE, !.wait[h2] = FALSE]
  /\ Emit("clone", <<h, h2>>, Ok, <<>>)
Mode(m) ==
  /\ s.mode # m
  /\ s' = [s EXCEPT !.mode = m,
             !.due = IF m = "pending" THEN @ ELSE @ \cup {H(h) : h \in {x \in HS : s.wait[x]}},
             !.wait = IF m = "pending" THEN @ ELSE [h \in HS |-> FALSE]]
  /\ Emit("mode", <<0, m>>, Ok, <<>>)

Do(op, a) ==
  \/ op = "poll" /\ Poll(a[1])
  \/ op = "call" /\ Call(a[1], a[2])
  \/ op = "resp" /\ Resp(a[1])
  \/ op = "finish" /\ FinishReq(a[1], a[2], a[3])
  \/ op = "cancel" /\ Cancel(a[1])
  \/ op = "clone" /\ Clone(a[1], a[2])
  \/ op = "mode" /\ Mode(a[2])
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
FirstFree == {k \in KS : s.f[k].at = 0 /\ \A j \in KS : j < k => s.f[j].at # 0}
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ /\ s.on
           /\ \/ \E h \in HS : Poll(h) \/ (\E h2 \in HS : Clone(h, h2)) \/ \E k \in FirstFree : Call(h, k)
              \/ \E k \in KS : Resp(k) \/ Cancel(k) \/ \E r \in Rs : Finish(k, r)
              \/ s.cfg.leaf \notin Always /\ \E m \in Modes : Mode(m)

Sorted(log, tags, up) == \A i, j \in 1..Len(log) : i < j /\ log[i][1] \in tags /\ log[j][1] \in tags =>
                           IF up THEN log[i][2] < log[j][2] ELSE log[i][2] > log[j][2]
\* requests pass the stages from the outside in, futures and results from the inside out, once each
Onion == [][s.on => Sorted(ev'.log, {"req", "filter"}, TRUE) /\ Sorted(ev'.log, {"fut"}, FALSE)
                    /\ Sorted(ev'.log, {"resp", "err", "result", "futok", "then", "andthen"}, FALSE)]_<<s, ev>>
\* an absent function of the success (error) path sees nothing of the other
OnlyOwnPath == [][s.on /\ ~InSeq("then", s.cfg.pipe) => \A i \in 1..Len(ev'.log) :
                   /\ ev'.log[i][1] \in {"resp", "andthen", "futok"} => ev'.log[i][3] < 200000
                   /\ ev'.log[i][1] = "err" => ev'.log[i][3] >= 200000 \/ ev'.op = "poll"]_<<s, ev>>
Inv == s.on => \A k \in KS : s.f[k].polled /\ s.f[k].at > 0 /\ s.f[k].res[1] # "open" => C(k) \in s.due
===============================================================================
