--------------------------- MODULE BytesPool_Trace ---------------------------
(* Histories of the real buffer pool.  get w -> b len overlap: buffer b (told *)
(* apart by its memory) of the given length, overlap when its memory overlaps *)
(* another held buffer's; put b.  cfg.max is the pool's bound.  Buffers made  *)
(* by the pool are numbered in order of first appearance.                     *)
EXTENDS ConcLib
VARIABLES free, held, width
tvars == <<tid, l, pend, free, held, width>>

Free(w) == IF w \in DOMAIN free THEN free[w] ELSE {}
SetFree(w, S) == [x \in DOMAIN free \union {w} |-> IF x = w THEN S ELSE free[x]]
Do(c) ==
  CASE c.op = "get" ->
         /\ c.len = c.w
         /\ ~c.overlap
         /\ c.b \notin held
         /\ IF Free(c.w) # {} THEN c.b \in Free(c.w) ELSE c.b \notin DOMAIN width
         /\ free' = SetFree(c.w, Free(c.w) \ {c.b})
         /\ held' = held \union {c.b}
         /\ width' = [x \in DOMAIN width \union {c.b} |-> IF x = c.b THEN c.w ELSE width[x]]
    [] c.op = "put" ->
         /\ held' = held \ {c.b}
         /\ LET w == width[c.b] IN
              free' = IF Cardinality(Free(w)) < Cfg.max THEN SetFree(w, Free(w) \union {c.b}) ELSE free
         /\ UNCHANGED width
Unch == UNCHANGED <<free, held, width>>
TraceInit == TInit /\ PInit /\ free = <<>> /\ held = {} /\ width = <<>>
TraceNext == \/ Is("call") /\ Do(Ev) /\ UNCHANGED pend
             \/ Inv /\ Unch
             \/ \E g \in Waiting : Do(CallOf(g)) /\ Took(g)
             \/ Ret /\ Unch
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
