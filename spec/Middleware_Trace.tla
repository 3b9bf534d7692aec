-------------------------- MODULE Middleware_Trace --------------------------
(* One request (or response) going through the real chain:                    *)
(*   enter{i,..} pass{i,..} back{i,..} write{i,v} leave{i,..}  reply{v} none  *)
(* where .. is what the function sees: req (id of the query), addr, resp      *)
(* (the reply so far, or the response received).                              *)
EXTENDS TraceLib, MiddlewareOps
VARIABLES m, resp
tvars == <<tid, l, m, resp>>
Sees == Ev.req = Cfg.req /\ Ev.addr = Cfg.addr /\ Ev.resp = resp
DoEnter == /\ Is("enter") /\ Sees /\ CanEnter(m) /\ Ev.i = m.next /\ m' = Enter(m) /\ UNCHANGED resp
DoPass  == /\ Is("pass") /\ Sees /\ CanPass(m, Ev.i) /\ m' = Pass(m) /\ UNCHANGED resp
DoBack  == /\ Is("back") /\ Sees /\ CanBack(m, Ev.i) /\ m' = Back(m) /\ UNCHANGED resp
DoWrite == /\ Is("write") /\ CanPass(m, Ev.i) /\ resp' = Ev.v /\ UNCHANGED m
DoLeave == /\ Is("leave") /\ Sees /\ CanLeave(m, Ev.i) /\ m' = Leave(m) /\ UNCHANGED resp
Finished == Len(m.stack) = 1 /\ m.next > m.n
Reply == /\ Is("reply") /\ Finished /\ Ev.v = resp /\ UNCHANGED <<m, resp>>
None  == /\ Is("none") /\ Finished /\ UNCHANGED <<m, resp>>     \* the response chain sends nothing
TraceInit == TInit /\ m = Start(Cfg.n) /\ resp = Cfg.resp
TraceNext == DoEnter \/ DoPass \/ DoBack \/ DoWrite \/ DoLeave \/ Reply \/ None
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
