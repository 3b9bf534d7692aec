------------------------------- MODULE Config -------------------------------
(* The configuration file over starts and edits.  A file is absent, invalid,  *)
(* or gives a value to some of the sections.                                   *)
(* Design: "right", or one known to be wrong: "replace" (an invalid file is    *)
(* replaced by the defaults), "zero" (a missing section is empty), "append"    *)
(* (a start completes the file), "lazy" (the first start writes nothing).      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Sections, MaxOps, Design
VARIABLES file, eff, ops
vars == <<file, eff, ops>>
Default == [s \in Sections |-> "default"]
None == [s \in Sections |-> "none"]
Values == {"missing", "a", "b"}
Files == {[k |-> "absent", v |-> None], [k |-> "nodir", v |-> None], [k |-> "invalid", v |-> None]}
         \union {[k |-> "some", v |-> v] : v \in [Sections -> Values]}
Init == file = [k |-> "nodir", v |-> None] /\ eff = None /\ ops = <<>>
Edit == /\ Len(ops) < MaxOps
        /\ \E f \in Files : file' = f /\ ops' = Append(ops, [o |-> "file", k |-> f.k, v |-> f.v])
        /\ (IF ops = <<>> THEN TRUE ELSE ops[Len(ops)].o = "start") /\ UNCHANGED eff
Of(f, s) == IF f.k = "some" /\ f.v[s] # "missing" THEN f.v[s] ELSE IF Design = "zero" /\ f.k = "some" THEN "zero" ELSE "default"
Start == /\ Len(ops) < MaxOps
         /\ IF file.k = "invalid" /\ Design # "replace" THEN eff' = None /\ UNCHANGED file
            ELSE /\ eff' = [s \in Sections |-> Of(IF file.k = "invalid" THEN [file EXCEPT !.k = "absent"] ELSE file, s)]
                 /\ file' = IF file.k = "some" /\ Design # "append" THEN file
                            ELSE IF Design = "lazy" /\ file.k # "some" THEN file
                            ELSE [k |-> "some", v |-> [s \in Sections |-> Of(file, s)]]
         /\ ops' = Append(ops, [o |-> "start", k |-> file.k, v |-> file.v])
Next == Edit \/ Start
Spec == Init /\ [][Next]_vars

Last == ops[Len(ops)]
Effective == (ops # <<>> /\ Last.o = "start") =>
  (IF Last.k = "invalid" THEN eff = None /\ file.k = "invalid"
  ELSE \A s \in Sections : eff[s] = IF Last.k = "some" /\ Last.v[s] # "missing" THEN Last.v[s] ELSE "default")
Persisted == (ops # <<>> /\ Last.o = "start" /\ Last.k \in {"absent", "nodir"}) => file = [k |-> "some", v |-> Default]
Untouched == (ops # <<>> /\ Last.o = "start" /\ Last.k = "some") => file.v = Last.v
PrintHist == Len(ops) = MaxOps => PrintT(<<"BEH", ToJson([i \in 1..Len(ops) |-> [o |-> ops[i].o, k |-> ops[i].k, v |-> ops[i].v]])>>)
=============================================================================
