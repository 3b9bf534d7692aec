---------------------------- MODULE SyncMap_Trace ----------------------------
(* Histories of the real shared map.  Operations: put key v; get key -> ok v; *)
(* del key; take key -> ok v.                                                 *)
EXTENDS ConcLib
VARIABLE m                       \* key -> value, for the keys present
tvars == <<tid, l, pend, m>>

Do(c) ==
  CASE c.op = "put"  -> m' = [k \in DOMAIN m \union {c.key} |-> IF k = c.key THEN c.v ELSE m[k]]
    [] c.op = "del"  -> m' = [k \in DOMAIN m \ {c.key} |-> m[k]]
    [] c.op = "get"  -> /\ On("C18") => IF c.key \in DOMAIN m THEN c.ok /\ c.v = m[c.key] ELSE ~c.ok
                        /\ m' = m
    [] c.op = "take" -> /\ On("C18") => IF c.key \in DOMAIN m THEN c.ok /\ c.v = m[c.key] ELSE ~c.ok
                        /\ m' = [k \in DOMAIN m \ {c.key} |-> m[k]]

TraceInit == TInit /\ PInit /\ m = <<>>
TraceNext == \/ Is("call") /\ Do(Ev) /\ UNCHANGED pend
             \/ Inv /\ UNCHANGED m
             \/ \E g \in Waiting : Do(CallOf(g)) /\ Took(g)
             \/ Ret /\ UNCHANGED m
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
