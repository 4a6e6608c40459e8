-------------------------------- MODULE Oneshot --------------------------------
(* ServiceExt::oneshot / Oneshot, ready_oneshot / ReadyOneshot and ready / Ready:
   futures that wait for a service to become ready. Slot k runs one such future at
   a time, each on a service of its own; the first two own the service, "ready"
   borrows it. *)
EXTENDS Common
CONSTANTS NK, Cfgs, Kinds, Modes, Rs
VARIABLES s, ev
KS == 1..NK
Off == [on |-> FALSE]
NoF == [st |-> "none", kind |-> "none", armed |-> FALSE, res |-> "open", polled |-> FALSE]
\* st: wait (for readiness) called ready (the service came out and may be called)
Start(c) == [on |-> TRUE, cfg |-> c, mode |-> "ready", f |-> [k \in KS |-> NoF], due |-> {}]
Emit(op, a, r, log) == ev' = Event(op, a, r, log, s'.due)
Boot(c) == s' = Start(c) /\ Emit("boot", <<c>>, Ok, <<>>)

\* nothing happens before the first poll
New(k, kind) ==
  /\ s.f[k].st \in {"none", "done"}
  /\ s' = [s EXCEPT !.f[k] = [NoF EXCEPT !.st = "wait", !.kind = kind]]
  /\ Emit("start", <<k, kind>>, Ok, <<>>)
Shot(kind) == kind \in {"oneshot", "new"}
Poll(k) ==
  /\ s.f[k].st \in {"wait", "called"}
  /\ LET x == s.f[k]
         t == [s EXCEPT !.due = @ \ {C(k)}]
         over == [NoF EXCEPT !.st = "done"] IN
     IF x.st = "wait"
     THEN IF s.mode = "err1" THEN s' = [t EXCEPT !.f[k] = over] /\ Emit("resp", <<k>>, <<"err", "e1">>, <<>>)
          ELSE IF s.mode # "ready" THEN s' = [t EXCEPT !.f[k].polled = TRUE] /\ Emit("resp", <<k>>, Pend, <<>>)
          ELSE IF Shot(x.kind) THEN s' = [t EXCEPT !.f[k].st = "called", !.f[k].polled = TRUE] /\ Emit("resp", <<k>>, Pend, <<<<"call", k>>>>)
          ELSE s' = [t EXCEPT !.f[k].st = "ready", !.f[k].polled = FALSE] /\ Emit("resp", <<k>>, <<"service">>, <<>>)
     ELSE IF x.res = "open" THEN s' = [t EXCEPT !.f[k].polled = TRUE] /\ Emit("resp", <<k>>, Pend, <<>>)
     ELSE /\ s' = [t EXCEPT !.f[k] = over]
          /\ Emit("resp", <<k>>, IF x.res = "ok" THEN <<"ok", 1000 + k>> ELSE <<"err", "r7">>, <<>>)
\* the service that came out is the one that went in, and still ready
Use(k) ==
  /\ s.f[k].st = "ready"
  /\ s' = [s EXCEPT !.f[k].st = "called"]
  /\ Emit("use", <<k>>, Ok, <<<<"call", k>>>>)
Finish(k, r) ==
  /\ s.f[k].st = "called" /\ s.f[k].res = "open"
  /\ s' = [s EXCEPT !.f[k].res = r, !.due = IF s.f[k].polled THEN @ \cup {C(k)} ELSE @]
  /\ Emit("finish", <<0, k, r>>, Ok, <<>>)
Cancel(k) ==
  /\ s.f[k].st \in {"wait", "called", "ready"}
  /\ s' = [s EXCEPT !.f[k] = [NoF EXCEPT !.st = "done"], !.due = @ \ {C(k)}]
  /\ Emit("cancel", <<k>>, Ok, IF s.f[k].st = "called" THEN <<<<"drop", k>>>> ELSE <<>>)
\* services that are gone when nothing holds them any more: one per slot in use
Live == s' = s /\ Emit("live", <<>>, <<"ok", Cardinality({k \in KS : s.f[k].st \in {"wait", "ready"} \/ (s.f[k].st = "called" /\ ~Shot(s.f[k].kind))})>>, <<>>)
Mode(m) ==
  /\ s.mode # m
  /\ s' = [s EXCEPT !.mode = m,
             !.due = IF m = "pending" THEN @ ELSE @ \cup {C(k) : k \in {x \in KS : s.f[x].st = "wait" /\ s.f[x].polled}},
             !.f = [k \in KS |-> IF m # "pending" /\ s.f[k].st = "wait" THEN [s.f[k] EXCEPT !.polled = FALSE] ELSE s.f[k]]]
  /\ Emit("mode", <<0, m>>, Ok, <<>>)
Do(op, a) ==
  \/ op = "start" /\ New(a[1], a[2])
  \/ op = "resp" /\ Poll(a[1])
  \/ op = "use" /\ Use(a[1])
  \/ op = "finish" /\ Finish(a[2], a[3])
  \/ op = "cancel" /\ Cancel(a[1])
  \/ op = "live" /\ Live
  \/ op = "mode" /\ Mode(a[2])
Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ /\ s.on
           /\ \/ \E k \in KS : Poll(k) \/ Use(k) \/ Cancel(k) \/ (\E r \in Rs : Finish(k, r)) \/ \E kind \in Kinds : New(k, kind)
              \/ Live
              \/ \E m \in Modes : Mode(m)
\* the service is called at most once per future, and only when it was ready
OnlyReady == [][s.on /\ ev'.op # "boot" => \A i \in 1..Len(ev'.log) : ev'.log[i][1] = "call" => s.mode = "ready" \/ ev'.op = "use"]_<<s, ev>>
Once == [][s.on /\ ev'.op # "boot" => \A k \in KS : s.f[k].st = "called" => ~InSeq(<<"call", k>>, ev'.log)]_<<s, ev>>
Inv == s.on => \A k \in KS : s.f[k].polled /\ s.f[k].st = "called" /\ s.f[k].res # "open" => C(k) \in s.due
================================================================================
