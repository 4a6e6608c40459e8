------------------------------- MODULE RateLimit -------------------------------
(* tower::limit::RateLimit: at most cfg.num requests per window of cfg.per units
   of 1/cfg.u ms (a timer may be late by less than a millisecond, never early).
   A window starts with the first request after the previous window ended, or
   when a caller that had to wait is let through.  Time is relative: left is what
   remains of the current window. *)
EXTENDS Common
CONSTANTS Cfgs, Modes, Advs, MaxK
VARIABLES s, ev

Off == [on |-> FALSE]
Start(c) == [on |-> TRUE, cfg |-> c, limited |-> FALSE, left |-> 0, rem |-> c.num,
             waiting |-> FALSE, iwait |-> FALSE, armed |-> FALSE, mode |-> "ready",
             used |-> 0,       \* requests in the current window
             ages |-> <<>>,    \* how long ago each request of the last cfg.per ms was made
             due |-> {}]
Emit(op, a, r, log) == ev' = Event(op, a, r, log, s'.due)
Boot(c) == s' = Start(c) /\ Emit("boot", <<c>>, Ok, <<>>)

Late == 1 - s.cfg.u
Over == s.left <= 0
Poll ==
  \E fired \in (IF s.left = Late THEN {TRUE} ELSE IF s.limited /\ Over THEN BOOLEAN ELSE {FALSE}) :
  LET t0 == [s EXCEPT !.due = {}, !.waiting = FALSE, !.iwait = FALSE]
      t1 == IF s.limited /\ fired
            THEN [t0 EXCEPT !.limited = FALSE, !.left = s.cfg.per, !.rem = s.cfg.num, !.used = 0]
            ELSE t0
  IN IF t1.limited THEN s' = [t1 EXCEPT !.waiting = TRUE] /\ Emit("poll", <<1>>, Pend, <<>>)
     ELSE IF s.mode = "err1" THEN s' = [t1 EXCEPT !.armed = FALSE] /\ Emit("poll", <<1>>, <<"err", "e1">>, <<>>)
     ELSE IF s.mode = "ready" \/ s.armed THEN s' = [t1 EXCEPT !.armed = TRUE] /\ Emit("poll", <<1>>, Ok, <<>>)
     ELSE s' = [t1 EXCEPT !.iwait = TRUE] /\ Emit("poll", <<1>>, Pend, <<>>)

Call(k) ==
  /\ s.armed
  /\ LET new == Over
         left == IF new THEN s.cfg.per ELSE s.left
         rem  == IF new THEN s.cfg.num ELSE s.rem
         used == IF new THEN 1 ELSE s.used + 1
     IN s' = [s EXCEPT !.left = left, !.used = used, !.armed = FALSE, !.ages = Append(@, 0),
                       !.rem = IF rem > 1 THEN rem - 1 ELSE 0,
                       !.limited = rem <= 1]
  /\ Emit("call", <<1, k>>, <<"ok", 1000 + k>>, <<<<"call", k>>>>)

Advance(d) ==
  /\ LET Young(x) == x < s.cfg.per
         left == Max(s.left - d, Late)
     IN s' = [s EXCEPT !.left = left,
                       !.ages = SelectSeq([i \in 1..Len(s.ages) |-> s.ages[i] + d], Young),
                       !.due = IF s.waiting /\ left = Late THEN @ \cup {H(1)} ELSE @]
  /\ Emit("adv", <<d>>, Ok, <<>>)

Mode(m) ==
  /\ s.mode # m
  /\ s' = [s EXCEPT !.mode = m, !.due = IF m # "pending" /\ s.iwait THEN @ \cup {H(1)} ELSE @]
  /\ Emit("mode", <<0, m>>, Ok, <<>>)

Do(op, a) ==
  \/ op = "poll" /\ Poll
  \/ op = "call" /\ Call(a[2])
  \/ op = "adv" /\ Advance(a[1])
  \/ op = "mode" /\ Mode(a[2])

Init == s = Off /\ ev = Event("off", <<>>, Nil, <<>>, {})
Next == \/ ~s.on /\ \E c \in Cfgs : Boot(c)
        \/ s.on /\ (Poll \/ (\E k \in 1..MaxK : Call(k)) \/ (\E d \in Advs : Advance(d)) \/ \E m \in Modes : Mode(m))

\* never more than num requests in one window
WindowRespected == s.on => s.used <= s.cfg.num
\* hence never more than 2 * num in any interval as long as a window
IntervalRespected == s.on => Len(s.ages) <= 2 * s.cfg.num
\* a caller is refused only while the window is exhausted; it is woken when the window ends
OnlyLimitedWhenExhausted == s.on /\ s.limited /\ s.left > 0 => s.used = s.cfg.num
WokenWhenOver == s.on /\ s.waiting /\ s.left = Late => H(1) \in s.due
Inv == WindowRespected /\ IntervalRespected /\ OnlyLimitedWhenExhausted /\ WokenWhenOver
===============================================================================
