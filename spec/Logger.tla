------------------------------- MODULE Logger -------------------------------
(* The loggers: one level for the whole program, kept by a table of named     *)
(* loggers; a logger derived by a prefix shares its parent's level.  Asking   *)
(* for a name makes its logger once; setting the level reaches every logger   *)
(* there is, one after the other, under the table's lock.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Procs, Names, Levels, MaxOps,
          Broken      \* "none", "keep": a logger keeps the level it was made with;
                      \* "copy": a derived logger copies it; "fast": a look without the lock;
                      \* "late": a new logger's level is read before the lock is taken
VARIABLES level,      \* of the table
          cell,       \* level of each logger made: sequence of [name, lv, of]
          table,      \* name -> number of its logger, 0: none
          lock, pc, arg, reg, left,
          hist        \* completed operations
vars == <<level, cell, table, lock, pc, arg, reg, left, hist>>

Low == CHOOSE v \in Levels : \A w \in Levels : v <= w
Init == /\ level = Low /\ cell = <<>> /\ table = [n \in Names |-> 0] /\ lock = "free"
        /\ pc = [p \in Procs |-> "idle"] /\ arg = [p \in Procs |-> <<>>] /\ reg = [p \in Procs |-> <<0, 0>>]
        /\ left = [p \in Procs |-> MaxOps] /\ hist = <<>>
Goto(p, s) == pc' = [pc EXCEPT ![p] = s]
Begin(p) == /\ pc[p] = "idle" /\ left[p] > 0 /\ left' = [left EXCEPT ![p] = @ - 1]
            /\ \/ \E n \in Names : /\ arg' = [arg EXCEPT ![p] = <<"get", n>>]
                                   /\ reg' = [reg EXCEPT ![p] = <<table[n], level>>]
                                   /\ Goto(p, IF Broken = "fast" THEN IF table[n] = 0 THEN "make" ELSE "done" ELSE "enter")
               \/ \E v \in Levels : /\ arg' = [arg EXCEPT ![p] = <<"set", v>>] /\ Goto(p, "enter") /\ UNCHANGED reg
               \/ \E i \in DOMAIN cell : /\ arg' = [arg EXCEPT ![p] = <<"prefix", i>>] /\ Goto(p, "derive") /\ UNCHANGED reg
            /\ UNCHANGED <<level, cell, table, lock, hist>>
Enter(p) == /\ pc[p] = "enter" /\ lock = "free" /\ lock' = p
            /\ IF arg[p][1] = "get"
               THEN /\ reg' = [reg EXCEPT ![p] = <<table[arg[p][2]], IF Broken = "late" THEN @[2] ELSE level>>]
                    /\ Goto(p, IF table[arg[p][2]] = 0 THEN "make" ELSE "done") /\ UNCHANGED level
               ELSE /\ level' = arg[p][2] /\ reg' = [reg EXCEPT ![p] = <<1, 0>>] /\ Goto(p, "walk")
            /\ UNCHANGED <<cell, table, arg, left, hist>>
Make(p) == /\ pc[p] = "make"
           /\ cell' = Append(cell, [name |-> arg[p][2], lv |-> reg[p][2], of |-> 0])
           /\ table' = [table EXCEPT ![arg[p][2]] = Len(cell) + 1]
           /\ Goto(p, "done") /\ UNCHANGED <<level, lock, arg, reg, left, hist>>
Walk(p) == /\ pc[p] = "walk"
           /\ IF reg[p][1] > Len(cell) THEN Goto(p, "done") /\ UNCHANGED <<cell, reg>>
              ELSE LET c == cell[reg[p][1]] IN
                   /\ cell' = IF c.of = 0 /\ Broken # "keep" THEN [cell EXCEPT ![reg[p][1]].lv = level] ELSE cell
                   /\ reg' = [reg EXCEPT ![p] = <<@[1] + 1, 0>>] /\ UNCHANGED pc
           /\ UNCHANGED <<level, table, lock, arg, left, hist>>
(* a derived logger: "of" is the logger whose level it shares, its own when it copied it *)
Derive(p) == /\ pc[p] = "derive"
             /\ LET c == cell[arg[p][2]] r == IF c.of = 0 THEN arg[p][2] ELSE c.of IN
                  cell' = Append(cell, [name |-> c.name, lv |-> cell[r].lv, of |-> r])
             /\ Goto(p, "done") /\ UNCHANGED <<level, table, lock, arg, reg, left, hist>>
Done(p) == /\ pc[p] = "done" /\ Goto(p, "idle") /\ lock' = (IF lock = p THEN "free" ELSE lock)
           /\ hist' = Append(hist, arg[p])
           /\ UNCHANGED <<level, cell, table, arg, reg, left>>
Next == \E p \in Procs : Begin(p) \/ Enter(p) \/ Make(p) \/ Walk(p) \/ Derive(p) \/ Done(p)
Spec == Init /\ [][Next]_vars

Of(i) == IF cell[i].of = 0 \/ Broken = "copy" THEN cell[i].lv ELSE cell[cell[i].of].lv
(* with no level being set, every logger there is has the level last set *)
InForce == (\A p \in Procs : pc[p] = "walk" => FALSE) => \A i \in DOMAIN cell : Of(i) = level
OneEach == \A i, j \in DOMAIN cell : i # j /\ cell[i].of = 0 /\ cell[j].of = 0 => cell[i].name # cell[j].name
View == <<level, cell, table, lock, pc, arg, reg, left>>
PrintBeh == (\E p \in Procs : left[p] > 0 \/ pc[p] # "idle") \/ PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
