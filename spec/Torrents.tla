------------------------------ MODULE Torrents ------------------------------
(* Listing a directory of saved metadata, while the crawler goes on saving.   *)
(* What is under a name is absent, "old" or "new" metadata, or "bad" (not      *)
(* metadata); the crawler replaces a file at once.  The lister reads the names *)
(* and then one file after the other, and prints what it finds.                *)
(* Broken: "none", or a design known to be wrong:                              *)
(*   "stop"   a bad file ends the listing                                      *)
(*   "limit"  files are not closed, and only so many can be open               *)
(*   "slow"   a file is replaced by writing it anew, and can be read half      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Files, Saves, Broken
VARIABLES dir, saved, pc, names, open, out, first
vars == <<dir, saved, pc, names, open, out, first>>
Limit == 2
Init == /\ dir \in [Files -> {"absent", "old", "bad"}] /\ saved = 0 /\ pc = "start" /\ names = {} /\ open = 0 /\ out = <<>> /\ first = dir
Save(f) == /\ saved < Saves /\ dir' = [dir EXCEPT ![f] = IF Broken = "slow" THEN "half" ELSE "new"] /\ saved' = saved + 1
           /\ UNCHANGED <<pc, names, open, out, first>>
Finish(f) == dir[f] = "half" /\ dir' = [dir EXCEPT ![f] = "new"] /\ UNCHANGED <<saved, pc, names, open, out, first>>
Start == /\ pc = "start" /\ pc' = "list" /\ names' = {f \in Files : dir[f] # "absent"} /\ first' = dir /\ UNCHANGED <<dir, saved, open, out>>
Show(f)  == /\ pc = "list" /\ f \in names /\ names' = names \ {f}
            /\ IF Broken = "limit" /\ open = Limit THEN pc' = "failed" /\ UNCHANGED <<open, out>>
               ELSE /\ open' = IF Broken = "limit" THEN open + 1 ELSE 0
                    /\ IF dir[f] \in {"bad", "half"} THEN out' = out /\ pc' = (IF Broken = "stop" THEN "failed" ELSE "list")
                       ELSE out' = Append(out, <<f, dir[f]>>) /\ UNCHANGED pc
            /\ UNCHANGED <<dir, saved, first>>
End == pc = "list" /\ names = {} /\ pc' = "done" /\ UNCHANGED <<dir, saved, names, open, out, first>>
Next == Start \/ End \/ \E f \in Files : Save(f) \/ Finish(f) \/ Show(f)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Lines(f) == {i \in 1..Len(out) : out[i][1] = f}
Ended == pc \in {"done", "failed"}
Complete == Ended => \A f \in Files : (first[f] = "old" => Cardinality(Lines(f)) = 1)
Truthful == \A i \in 1..Len(out) : out[i][2] \in {"old", "new"} /\ Cardinality(Lines(out[i][1])) = 1
=============================================================================
