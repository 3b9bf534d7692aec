------------------------------ MODULE BytesPool ------------------------------
(* The buffer pool: per width, a bounded bag of returned buffers.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Widths, Max, MaxOps
VARIABLES free,   \* width -> returned buffers kept
          held,   \* buffers in somebody's hands, oldest first
          width,  \* width of each buffer ever made
          hist
vars == <<free, held, width, hist>>

Init == free = [w \in Widths |-> {}] /\ held = <<>> /\ width = <<>> /\ hist = <<>>
Get(w) ==
  /\ Len(hist) < MaxOps
  /\ \/ \E b \in free[w] : /\ free' = [free EXCEPT ![w] = @ \ {b}]
                           /\ held' = Append(held, b) /\ UNCHANGED width
     \/ /\ free[w] = {}
        /\ width' = Append(width, w) /\ held' = Append(held, Len(width) + 1) /\ UNCHANGED free
  /\ hist' = Append(hist, <<"get", w>>)
Put(i) ==
  /\ Len(hist) < MaxOps
  /\ LET b == held[i] w == width[held[i]] IN
       free' = [free EXCEPT ![w] = IF Cardinality(@) < Max THEN @ \union {b} ELSE @]
  /\ held' = SubSeq(held, 1, i - 1) \o SubSeq(held, i + 1, Len(held))
  /\ UNCHANGED width
  /\ hist' = Append(hist, <<"put", i>>)
Next == \/ \E w \in Widths : Get(w)
        \/ \E i \in DOMAIN held : Put(i)
Spec == Init /\ [][Next]_vars

Bounded   == \A w \in Widths : Cardinality(free[w]) <= Max
RightWidth == \A w \in Widths : \A b \in free[w] : width[b] = w
NotShared == /\ \A i, j \in DOMAIN held : i # j => held[i] # held[j]
             /\ \A i \in DOMAIN held : \A w \in Widths : held[i] \notin free[w]
View == <<free, held, width>>
(* what matters for the next operations: how many are held and kept, by width *)
GenView == <<[w \in Widths |-> Cardinality(free[w])], [i \in DOMAIN held |-> width[held[i]]]>>
PrintBeh == hist = <<>> \/ PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
