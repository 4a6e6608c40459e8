-------------------------------- MODULE CallAllLive --------------------------------
(* progress of tower::util::CallAll under wake-ups alone: see Live *)
EXTENDS CallAll
VARIABLE pend
INSTANCE Live
LiveInit == \E c \in Cfgs : s = Start(c) /\ ev = Event("boot", <<c>>, Ok, <<>>, {}) /\ pend = {}
Fairness == Fair(Poll) /\ Fair(Feed) /\ Fair(End) /\ \A k \in KS : Fair(\E r \in Rs : Finish(k, r))
\* (taken apart, it is over)
LiveSpec == LiveInit /\ [][L(Next /\ ~s'.over)]_<<s, ev, pend>> /\ Fairness
Env == <>[](s.mode # "pending")
Everyone == Env => AllServed({H(1)})
\* every request taken from the stream is answered, or the service has failed
Answered == Env => \A k \in KS : InSeq(k, s.q) ~> ~InSeq(k, s.q)
\* the stream of responses ends after that of requests
Ends == Env => (s.end ~> (s.eof /\ s.q = <<>>))
===============================================================================
