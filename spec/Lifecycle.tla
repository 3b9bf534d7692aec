----------------------------- MODULE Lifecycle ------------------------------
(* Crawler processes that are started and end, and the ports they are to      *)
(* serve.  A port has one holder: a crawler, or something else.               *)
(* Broken: "none", or a design known to be wrong:                             *)
(*   "share"     a port that is taken is taken as well                        *)
(*   "deaf"      a crawler that does not get its port goes on without         *)
(*   "elsewhere" a crawler that does not get its port takes another           *)
(*   "lingers"   a crawler that was killed keeps its port                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Procs, Ports, MaxOps, EnvQuiet, Broken
VARIABLES st,       \* of a process: "off", "starting", "up", "failed"
          port,     \* the port it was given
          has,      \* the ports it has
          other,    \* ports that something else has
          hist
vars == <<st, port, has, other, hist>>
Init == /\ st = [p \in Procs |-> "off"] /\ port = [p \in Procs |-> 0] /\ has = [p \in Procs |-> {}] /\ other = {} /\ hist = <<>>
Taken == other \union UNION {has[p] : p \in Procs}
Bind(p) == /\ st[p] = "starting" /\ (port[p] \notin Taken \/ Broken = "share")
           /\ st' = [st EXCEPT ![p] = "up"] /\ has' = [has EXCEPT ![p] = {port[p]}] /\ UNCHANGED <<port, other, hist>>
Refuse(p) == /\ st[p] = "starting" /\ port[p] \in Taken /\ Broken # "share"
             /\ \/ Broken \in {"none", "lingers"} /\ st' = [st EXCEPT ![p] = "failed"] /\ UNCHANGED has
                \/ Broken = "deaf" /\ st' = [st EXCEPT ![p] = "up"] /\ UNCHANGED has
                \/ Broken = "elsewhere" /\ \E q \in Ports \ Taken : st' = [st EXCEPT ![p] = "up"] /\ has' = [has EXCEPT ![p] = {q}]
             /\ UNCHANGED <<port, other, hist>>
Quiet == \A p \in Procs : st[p] # "starting"
Env(op) == Len(hist) < MaxOps /\ (EnvQuiet => Quiet) /\ hist' = Append(hist, op)
Start(p, q) == /\ st[p] \in {"off", "failed"} /\ Env(<<"start", p, q>>)
               /\ st' = [st EXCEPT ![p] = "starting"] /\ port' = [port EXCEPT ![p] = q] /\ UNCHANGED <<has, other>>
Both(q) == /\ \A p \in Procs : st[p] \in {"off", "failed"}
           /\ Env(<<"both", 0, q>>)
           /\ st' = [p \in Procs |-> "starting"] /\ port' = [p \in Procs |-> q] /\ UNCHANGED <<has, other>>
End(p, how) == /\ st[p] = "up" /\ Env(<<how, p, 0>>) /\ st' = [st EXCEPT ![p] = "off"]
               /\ has' = (IF Broken = "lingers" /\ how = "kill" THEN has ELSE [has EXCEPT ![p] = {}]) /\ UNCHANGED <<port, other>>
Take(q) == /\ q \notin Taken /\ Env(<<"take", 0, q>>) /\ other' = other \union {q} /\ UNCHANGED <<st, port, has>>
Free(q) == /\ q \in other /\ Env(<<"free", 0, q>>) /\ other' = other \ {q} /\ UNCHANGED <<st, port, has>>
Next == \/ \E p \in Procs : Bind(p) \/ Refuse(p) \/ (\E q \in Ports : Start(p, q)) \/ \E how \in {"kill", "term", "int"} : End(p, how)
        \/ \E q \in Ports : Take(q) \/ Free(q) \/ Both(q)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Serves == \A p \in Procs : (st[p] = "up") => has[p] = {port[p]}
Alone == \A p, q \in Procs : p # q => has[p] \cap has[q] = {}
NotOthers == \A p \in Procs : has[p] \cap other = {}
Freed == \A p \in Procs : st[p] \in {"off", "failed"} => has[p] = {}
View == <<st, port, has, other>>
GenView == vars
PrintBeh == (hist = <<>> \/ ~Quiet) \/ PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
