------------------------------ MODULE InfoLog ------------------------------
(* The log of info-hashes: workers answer queries at the same time and append *)
(* to one file what was asked for.  Kinds of queries: "hash" (a valid one that *)
(* names an info-hash), "bad" (names one, but is rejected), "other".  A line   *)
(* is written as two halves; only a whole line can be read.                    *)
(* Broken: "none", or a design known to be wrong:                              *)
(*   "torn"   the halves of a line are written separately                      *)
(*   "late"   the line is written after the reply                              *)
(*   "early"  the line is written before the query is checked                  *)
(*   "buffer" lines are kept in memory, and written two at a time              *)
(*   "fresh"  a start empties the file                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Workers, MaxIn, Broken
VARIABLES hist,    \* kinds of the queries so far
          w,       \* worker -> [pc, i]
          file,    \* halves: sequence of <<query, 1 or 2>>
          mem, replied, starts
vars == <<hist, w, file, mem, replied, starts>>
Idle == [pc |-> "idle", i |-> 0]
Init == hist = <<>> /\ w = [p \in Workers |-> Idle] /\ file = <<>> /\ mem = <<>> /\ replied = {} /\ starts = 1
Arrive(p, k) == /\ Len(hist) < MaxIn /\ w[p].pc = "idle" /\ hist' = Append(hist, k)
                /\ w' = [w EXCEPT ![p] = [pc |-> "check", i |-> Len(hist) + 1]] /\ UNCHANGED <<file, mem, replied, starts>>
Line(i) == <<<<i, 1>>, <<i, 2>>>>
Logs(k) == k = "hash" \/ (k = "bad" /\ Broken = "early")
Check(p) == /\ w[p].pc = "check"
            /\ w' = [w EXCEPT ![p].pc = IF ~Logs(hist[w[p].i]) \/ Broken = "late" THEN "reply" ELSE "log"]
            /\ UNCHANGED <<hist, file, mem, replied, starts>>
Log(p) == /\ w[p].pc = "log"
          /\ LET i == w[p].i
                 next == IF Broken = "late" THEN "idle" ELSE "reply" IN
             IF Broken = "torn" THEN file' = Append(file, <<i, 1>>) /\ w' = [w EXCEPT ![p].pc = "log2"] /\ UNCHANGED mem
             ELSE /\ w' = [w EXCEPT ![p].pc = next]
                  /\ IF Broken # "buffer" THEN file' = file \o Line(i) /\ UNCHANGED mem
                     ELSE IF mem = <<>> THEN mem' = Line(i) /\ UNCHANGED file
                     ELSE file' = file \o mem \o Line(i) /\ mem' = <<>>
          /\ UNCHANGED <<hist, replied, starts>>
Log2(p) == /\ w[p].pc = "log2" /\ file' = Append(file, <<w[p].i, 2>>) /\ w' = [w EXCEPT ![p].pc = "reply"]
           /\ UNCHANGED <<hist, mem, replied, starts>>
Reply(p) == /\ w[p].pc = "reply" /\ replied' = replied \union {w[p].i}
            /\ w' = [w EXCEPT ![p].pc = IF Broken = "late" /\ Logs(hist[w[p].i]) THEN "log" ELSE "idle"]
            /\ UNCHANGED <<hist, file, mem, starts>>
(* killed, and started again *)
Restart == /\ starts < 2 /\ starts' = starts + 1 /\ w' = [p \in Workers |-> Idle] /\ mem' = <<>>
           /\ file' = (IF Broken = "fresh" THEN <<>> ELSE file) /\ UNCHANGED <<hist, replied>>
Next == (\E p \in Workers : (\E k \in {"hash", "bad", "other"} : Arrive(p, k)) \/ Check(p) \/ Log(p) \/ Log2(p) \/ Reply(p)) \/ Restart
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Lines == {j \in 1..(Len(file) - 1) : file[j][2] = 1 /\ file[j + 1] = <<file[j][1], 2>>}
Of(i) == Cardinality({j \in Lines : file[j][1] = i})
(* nothing but whole lines, one for a query, and only for those that are to have one *)
Whole == Len(file) = 2 * Cardinality(Lines)
Once == \A i \in 1..Len(hist) : Of(i) <= IF hist[i] = "hash" THEN 1 ELSE 0
(* there when the reply is *)
There == \A i \in replied : hist[i] = "hash" => Of(i) = 1
=============================================================================
