--------------------------- MODULE ConcurrencyLimit ---------------------------
(* tower::limit::ConcurrencyLimit, its layers and its shared semaphore.

   Handles (services) 1..NH; each belongs to a group, i.e. a set of handles that
   share one limit: clones share, applying ConcurrencyLimitLayer again does not,
   applying GlobalConcurrencyLimitLayer does.
   Response futures 1..NC.  Slots are granted in the order they were asked for. *)
EXTENDS Common
CONSTANTS NH, NC, Cfgs, Modes, Rs
VARIABLES s, ev

HS == 1..NH
CS == 1..NC
GS == 1..2

Off == [on |-> FALSE]
Start(c) ==
  [on |-> TRUE, cfg |-> c,
   st |-> [h \in HS |-> IF h = 1 THEN "idle" ELSE "none"],  \* none idle wait got held
   grp |-> [h \in HS |-> 1],
   armed |-> [h \in HS |-> FALSE],      \* poll_ready said Ready, not called yet
   iwait |-> [h \in HS |-> FALSE],      \* registered with the inner service
   avail |-> [g \in GS |-> c.max],
   q |-> [g \in GS |-> <<>>],
   relayered |-> FALSE,
   mode |-> "ready",
   call |-> [k \in CS |-> "none"],      \* none open polled ok err panic
   cgrp |-> [k \in CS |-> 1],
   due |-> {}]

Emit(op, a, r, log) == ev' = Event(op, a, r, log, s'.due)

Boot(c) == /\ s' = Start(c) /\ ev' = Event("boot", <<c>>, Ok, <<>>, {})

\* a slot of group g becomes free: the first waiter gets it and must be woken
Release(t, g) ==
  IF t.q[g] = <<>> THEN [t EXCEPT !.avail[g] = @ + 1]
  ELSE LET h == Head(t.q[g]) IN
       [t EXCEPT !.q[g] = Tail(@), !.st[h] = "got", !.due = @ \cup {H(h)}]

PollReady(h) ==
  LET g == s.grp[h]
      t0 == [s EXCEPT !.due = @ \ {H(h)}, !.iwait[h] = FALSE]
      t1 == IF t0.st[h] \in {"held"} THEN t0
            ELSE IF t0.st[h] = "got" THEN [t0 EXCEPT !.st[h] = "held"]
            ELSE IF t0.st[h] = "idle" /\ t0.avail[g] > 0
                 THEN [t0 EXCEPT !.st[h] = "held", !.avail[g] = @ - 1]
            ELSE IF t0.st[h] = "idle" THEN [t0 EXCEPT !.st[h] = "wait", !.q[g] = Append(@, h)]
            ELSE t0
  IN /\ s.st[h] # "none"
     /\ IF t1.st[h] # "held" THEN s' = t1 /\ Emit("poll", <<h>>, Pend, <<>>)
        ELSE IF t1.mode = "err1" THEN s' = [t1 EXCEPT !.armed[h] = FALSE] /\ Emit("poll", <<h>>, <<"err", "e1">>, <<>>)
        ELSE IF t1.armed[h] \/ t1.mode = "ready" THEN s' = [t1 EXCEPT !.armed[h] = TRUE] /\ Emit("poll", <<h>>, Ok, <<>>)
        ELSE s' = [t1 EXCEPT !.iwait[h] = TRUE] /\ Emit("poll", <<h>>, Pend, <<>>)

Call(h, k) ==
  /\ s.st[h] = "held" /\ s.armed[h] /\ s.call[k] = "none"
  /\ s' = [s EXCEPT !.st[h] = "idle", !.armed[h] = FALSE, !.call[k] = "open", !.cgrp[k] = s.grp[h]]
  /\ Emit("call", <<h, k>>, Ok, <<<<"call", k>>>>)

\* the inner service panics when it is called: the slot is free again, or still this handle's
Boom(h) ==
  /\ s.st[h] = "held" /\ s.armed[h]
  /\ \/ s' = Release([s EXCEPT !.st[h] = "idle", !.armed[h] = FALSE], s.grp[h])
     \/ s' = [s EXCEPT !.armed[h] = FALSE]
  /\ Emit("boom", <<h>>, <<"panic">>, <<<<"call", 0>>>>)

\* the inner service finishes call k
Finish(k, r) ==
  /\ s.call[k] \in {"open", "polled"}
  /\ s' = [s EXCEPT !.call[k] = r, !.due = IF s.call[k] = "polled" THEN @ \cup {C(k)} ELSE @]
  /\ Emit("finish", <<k, r>>, Ok, <<>>)

\* the response is polled; when it resolves (or panics) it is dropped, which frees the slot
PollResp(k) ==
  /\ s.call[k] # "none"
  /\ LET t == [s EXCEPT !.due = @ \ {C(k)}] IN
     IF s.call[k] \in {"open", "polled"}
     THEN s' = [t EXCEPT !.call[k] = "polled"] /\ Emit("resp", <<k>>, Pend, <<>>)
     ELSE /\ s' = Release([t EXCEPT !.call[k] = "none"], s.cgrp[k])
          /\ Emit("resp", <<k>>, CASE s.call[k] = "ok" -> <<"ok", 1000 + k>> [] s.call[k] = "err" -> <<"err", "r7">> [] OTHER -> <<"panic">>, <<>>)

\* the response future is dropped before it resolved
Cancel(k) ==
  /\ s.call[k] # "none"
  /\ s' = Release([s EXCEPT !.call[k] = "none", !.due = @ \ {C(k)}], s.cgrp[k])
  /\ Emit("cancel", <<k>>, Ok, <<<<"drop", k>>>>)

Clone(h, h2) ==
  /\ s.st[h] # "none" /\ s.st[h2] = "none"
  /\ s' = [s EXCEPT !.st[h2] = "idle", !.grp[h2] = s.grp[h], !.armed[h2] = FALSE, !.iwait[h2] = FALSE]
  /\ Emit("clone", <<h, h2>>, Ok, <<>>)

\* the layer is applied to another inner service
Relayer(h2) ==
  /\ ~s.relayered /\ s.st[h2] = "none" /\ s.cfg.kind \in {"layer", "global", "globalsem"}
  /\ s' = [s EXCEPT !.st[h2] = "idle", !.relayered = TRUE, !.armed[h2] = FALSE, !.iwait[h2] = FALSE,
                    !.grp[h2] = IF s.cfg.kind # "layer" THEN 1 ELSE 2]
  /\ Emit("relayer", <<h2>>, Ok, <<>>)

DropHandle(h) ==
  /\ s.st[h] # "none"
  /\ LET g == s.grp[h]
         t == [s EXCEPT !.st[h] = "none", !.armed[h] = FALSE, !.iwait[h] = FALSE, !.q[g] = Without(@, h),
                        !.due = @ \ {H(h)}, !.grp[h] = 1]
     IN s' = IF s.st[h] \in {"got", "held"} THEN Release(t, g) ELSE t
  /\ Emit("drop", <<h>>, Ok, <<>>)

Mode(m) ==
  /\ s.mode # m
  /\ s' = [s EXCEPT !.mode = m,
             !.due = IF m = "pending" THEN @ ELSE @ \cup {H(h) : h \in {x \in HS : s.iwait[x]}},
             !.iwait = IF m = "pending" THEN @ ELSE [h \in HS |-> FALSE]]
  /\ Emit("mode", <<m>>, Ok, <<>>)

Do(op, a) ==
  \/ op = "poll" /\ PollReady(a[1])
  \/ op = "call" /\ Call(a[1], a[2])
  \/ op = "boom" /\ Boom(a[1])
  \/ op = "finish" /\ Finish(a[1], a[2])
  \/ op = "resp" /\ PollResp(a[1])
  \/ op = "cancel" /\ Cancel(a[1])
  \/ op = "clone" /\ Clone(a[1], a[2])
  \/ op = "relayer" /\ Relayer(a[1])
  \/ op = "drop" /\ DropHandle(a[1])
  \/ op = "mode" /\ Mode(a[1])

Panics == "panic" \in Rs
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
FirstFree == {k \in CS : s.call[k] = "none" /\ \A j \in CS : j < k => s.call[j] # "none"}
FreeHandle == {h \in HS : s.st[h] = "none" /\ \A i \in HS : i < h => s.st[i] # "none"}
Next ==
  \/ ~s.on /\ \E c \in Cfgs : Boot(c)
  \/ /\ s.on
     /\ \/ \E h \in HS : PollReady(h) \/ DropHandle(h) \/ (Panics /\ Boom(h))
        \/ \E h \in FreeHandle : Relayer(h)
        \/ \E h \in HS : \E k \in FirstFree : Call(h, k)
        \/ \E k \in CS : PollResp(k) \/ Cancel(k) \/ \E r \in Rs : Finish(k, r)
        \/ \E h \in HS, h2 \in FreeHandle : Clone(h, h2)
        \/ \E m \in Modes : Mode(m)

-------------------------------------------------------------------------------
InFlight(g) == Cardinality({k \in CS : s.call[k] # "none" /\ s.cgrp[k] = g})
Held(g) == Cardinality({h \in HS : s.st[h] \in {"got", "held"} /\ s.grp[h] = g})

\* never more than max requests in flight, however the service was cloned or shared
LimitRespected == s.on => \A g \in GS : InFlight(g) <= s.cfg.max
\* no slot is ever lost or invented
SlotsConserved == s.on => \A g \in GS : InFlight(g) + Held(g) + s.avail[g] = s.cfg.max
\* a free slot is never withheld from a waiting caller, and whoever was granted one is told
NoStarvation == s.on => \A g \in GS : s.avail[g] > 0 => s.q[g] = <<>>
GrantedAreWoken == s.on => \A h \in HS : s.st[h] = "got" => H(h) \in s.due
\* the inner service is only called through a handle that holds a slot
CallNeedsSlot == [][ev'.op = "call" => s.st[ev'.a[1]] = "held"]_<<s, ev>>
Inv == LimitRespected /\ SlotsConserved /\ NoStarvation /\ GrantedAreWoken
===============================================================================
