-------------------------------- MODULE TxId --------------------------------
(* The transaction id counter: callers lock, increment modulo M, read.        *)
(* Locked = FALSE models the counter without its lock (TLC then finds a       *)
(* repeated id), Locked = TRUE the one in dht/node.go.                        *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS M, Procs, Draws, Locked
VARIABLES counter, lock, pc, tmp, drawn
vars == <<counter, lock, pc, tmp, drawn>>
Init == /\ counter \in 0..(M - 1) /\ lock = "free"
        /\ pc = [p \in Procs |-> "idle"] /\ tmp = [p \in Procs |-> 0] /\ drawn = <<>>
Enter(p) == /\ pc[p] = "idle" /\ Len(drawn) < Draws
            /\ IF Locked THEN lock = "free" /\ lock' = p ELSE UNCHANGED lock
            /\ pc' = [pc EXCEPT ![p] = "load"] /\ UNCHANGED <<counter, tmp, drawn>>
Load(p) == /\ pc[p] = "load" /\ tmp' = [tmp EXCEPT ![p] = (counter + 1) % M]
           /\ pc' = [pc EXCEPT ![p] = "store"] /\ UNCHANGED <<counter, lock, drawn>>
Store(p) == /\ pc[p] = "store" /\ counter' = tmp[p]
            /\ pc' = [pc EXCEPT ![p] = "exit"] /\ UNCHANGED <<lock, tmp, drawn>>
Exit(p) == /\ pc[p] = "exit" /\ drawn' = Append(drawn, tmp[p])
           /\ lock' = (IF Locked THEN "free" ELSE lock)
           /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<counter, tmp>>
Next == \E p \in Procs : Enter(p) \/ Load(p) \/ Store(p) \/ Exit(p)
Spec == Init /\ [][Next]_vars
(* any M consecutive draws are pairwise different *)
Window == \A i, j \in DOMAIN drawn : (i < j /\ j - i < M) => drawn[i] # drawn[j]
=============================================================================
