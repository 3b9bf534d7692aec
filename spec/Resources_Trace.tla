-------------------------- MODULE Resources_Trace ---------------------------
(* What a running crawler holds.                                              *)
(*   base{g,f,kb}     at rest: goroutines, open files, memory in use          *)
(*   during{s}        open sockets at some moment (the most so far)           *)
(*   burst{kind,n}    n messages of a kind have been sent                     *)
(*   rest{g,f,kb,stored}  at rest again, with so many nodes stored since      *)
(* Cfg: workers, fetchers, base sockets; a worker may be started when it is   *)
(* first needed, but then there are no more than the configured number.       *)
EXTENDS TraceLib
VARIABLES base, sent
tvars == <<tid, l, base, sent>>
Base == /\ Is("base") /\ base' = Ev /\ UNCHANGED sent
Burst == /\ Is("burst") /\ sent' = sent + Ev.n /\ UNCHANGED base
(* a fetch worker has one connection *)
During == /\ Is("during") /\ UNCHANGED <<base, sent>>
          /\ (On("C28") => Ev.s <= base.s + Cfg.fetchers)
Rest == /\ Is("rest") /\ UNCHANGED <<base, sent>>
        /\ (On("C28") => /\ Ev.g <= base.g + Cfg.workers + Cfg.fetchers + 2
                         /\ Ev.f <= base.f + 2
                         /\ Ev.s <= base.s
                         /\ Ev.kb <= base.kb + Cfg.slack + 2 * Ev.stored)
TraceInit == TInit /\ base = [e |-> "none"] /\ sent = 0
TraceNext == Base \/ Burst \/ During \/ Rest
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
