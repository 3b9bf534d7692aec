------------------------------- MODULE SyncMap -------------------------------
(* The shared map: goroutines take the mutex, touch the map, release it.      *)
(* Abstract map `abs' changes at the linearization point (the touch).  Broken *)
(* switches off the mutex for one kind of operation, splitting its touch into *)
(* a read and a write: TLC then finds the non-linearizable history, which is  *)
(* how the model is shown to be able to tell the difference.                  *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS Procs, Keys, Vals, OpsPer, Broken
None == 0
VARIABLES map, abs, lock, pc, op, res, got, left
vars == <<map, abs, lock, pc, op, res, got, left>>

Ops == [k : {"put"}, key : Keys, v : Vals] \union [k : {"get", "del", "take"}, key : Keys, v : {None}]
Init == /\ map = [k \in Keys |-> None] /\ abs = map /\ lock = "free"
        /\ pc = [p \in Procs |-> "idle"] /\ op = [p \in Procs |-> [k |-> "get", key |-> CHOOSE k \in Keys : TRUE, v |-> None]]
        /\ res = [p \in Procs |-> None] /\ got = [p \in Procs |-> None] /\ left = [p \in Procs |-> OpsPer]
Begin(p) == /\ pc[p] = "idle" /\ left[p] > 0
            /\ \E o \in Ops : op' = [op EXCEPT ![p] = o]
            /\ pc' = [pc EXCEPT ![p] = "enter"] /\ left' = [left EXCEPT ![p] = @ - 1]
            /\ UNCHANGED <<map, abs, lock, res, got>>
Locked(p) == op[p].k # Broken
Enter(p) == /\ pc[p] = "enter"
            /\ IF Locked(p) THEN lock = "free" /\ lock' = p ELSE UNCHANGED lock
            /\ pc' = [pc EXCEPT ![p] = "read"] /\ UNCHANGED <<map, abs, op, res, got, left>>
Effect(m, o) == CASE o.k = "put" -> [m EXCEPT ![o.key] = o.v]
                  [] o.k \in {"del", "take"} -> [m EXCEPT ![o.key] = None]
                  [] OTHER -> m
Read(p) == /\ pc[p] = "read"
           /\ res' = [res EXCEPT ![p] = map[op[p].key]]
           (* the linearization point of a call that reads *)
           /\ got' = [got EXCEPT ![p] = abs[op[p].key]]
           /\ abs' = IF op[p].k = "take" THEN Effect(abs, op[p]) ELSE abs
           /\ pc' = [pc EXCEPT ![p] = "write"] /\ UNCHANGED <<map, lock, op, left>>
Write(p) == /\ pc[p] = "write"
            /\ map' = Effect(map, op[p])
            /\ abs' = IF op[p].k \in {"put", "del"} THEN Effect(abs, op[p]) ELSE abs
            /\ pc' = [pc EXCEPT ![p] = "exit"] /\ UNCHANGED <<lock, op, res, got, left>>
Exit(p) == /\ pc[p] = "exit"
           /\ lock' = IF lock = p THEN "free" ELSE lock
           /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<map, abs, op, res, got, left>>
Next == \E p \in Procs : Begin(p) \/ Enter(p) \/ Read(p) \/ Write(p) \/ Exit(p)
Spec == Init /\ [][Next]_vars

MutualExclusion == Cardinality({p \in Procs : pc[p] \in {"read", "write", "exit"} /\ Locked(p)}) <= 1
Linearizable == /\ \A p \in Procs : pc[p] \in {"write", "exit"} => res[p] = got[p]
                /\ (\A p \in Procs : pc[p] \in {"idle", "enter"}) => map = abs
=============================================================================
