-------------------------- MODULE Lifecycle_Trace ---------------------------
(* Starts and ends of real crawler processes.                                 *)
(*   take{q} free{q}        something else has, or has no more, the port      *)
(*   start{p,q,boots,bad}   a crawler is started; q: its port; so many        *)
(*                          bootstrap nodes; bad: to one of them nothing can  *)
(*                          be sent                                           *)
(*   state{p,alive,rc,has,asked}  seconds later: is it alive, with which code *)
(*                          did it end, which of the ports does it have, how  *)
(*                          many of its bootstrap nodes have been asked       *)
(*   ask{q,ok}              a ping to the port, and whether it was answered   *)
(*   end{p,how,rc}          it was stopped                                    *)
(*   files{same}            configuration, log and saved metadata are as they *)
(*                          were left                                         *)
EXTENDS TraceLib
VARIABLES run,       \* set of [p, q, st]: st: "starting", "up"
          other
tvars == <<tid, l, run, other>>
Of(p) == CHOOSE x \in run : x.p = p
Take == Is("take") /\ other' = other \union {Ev.q} /\ UNCHANGED run
Free == Is("free") /\ other' = other \ {Ev.q} /\ UNCHANGED run
Start == /\ Is("start") /\ run' = run \union {[p |-> Ev.p, q |-> Ev.q, st |-> "starting", boots |-> Ev.boots, bad |-> Ev.bad]} /\ UNCHANGED other
Held(q) == q \in other \/ \E x \in run : x.st = "up" /\ x.q = q
(* of several that start with one port one gets it: whose state is looked at  *)
(* first is settled first, and may have lost to one that is looked at later   *)
State == /\ Is("state") /\ UNCHANGED other
         /\ \E x \in run : /\ x.p = Ev.p
              /\ \/ /\ Ev.alive /\ run' = (run \ {x}) \union {[x EXCEPT !.st = "up"]}
                    /\ (On("C29") => ~Held(x.q) /\ ToSet(Ev.has) = {x.q} /\ Ev.asked = x.boots)
                 \/ /\ ~Ev.alive /\ run' = run \ {x}
                    /\ (On("C29") => Ev.rc # 0 /\ (x.bad \/ Held(x.q) \/ \E y \in run : y.p # x.p /\ y.q = x.q))
Ask == /\ Is("ask") /\ UNCHANGED <<run, other>>
       /\ (On("C29") => (Ev.ok <=> \E x \in run : x.st = "up" /\ x.q = Ev.q))
End == /\ Is("end") /\ \E x \in run : x.p = Ev.p /\ run' = run \ {x} /\ UNCHANGED other
Files == Is("files") /\ (On("C29") => Ev.same) /\ UNCHANGED <<run, other>>
TraceInit == TInit /\ run = {} /\ other = {}
TraceNext == Take \/ Free \/ Start \/ State \/ Ask \/ End \/ Files
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
