----------------------------- MODULE TxId_Trace -----------------------------
(* Ids the real generator returned (numbered in order of first appearance).   *)
(*   seq   from to   draws cfg.d[from..to] made one after another             *)
(*   conc  d         draws made by concurrent callers, at most W of them      *)
EXTENDS TraceLib
W == 65536
tvars == <<tid, l>>
D == Cfg.d
(* d[i] differs from the W - 1 draws before it.  When it equals the draw W    *)
(* back, the window before it settles that without a search.                  *)
(* D[i] = i says that nothing was ever repeated up to i.                      *)
Fresh(i) == \/ D[i] = i
            \/ i > W /\ D[i] = D[i - W]
            \/ \A j \in (IF i > W THEN i - W + 1 ELSE 1)..(i - 1) : D[j] # D[i]
Row == /\ Is("seq")
       /\ IF Ev.to <= W THEN Cardinality({D[i] : i \in 1..Ev.to}) = Ev.to
          ELSE \A i \in Ev.from..Ev.to : Fresh(i)
Conc == /\ Is("conc")
        /\ Len(Ev.d) <= W
        /\ NoDup(Ev.d)
TraceNext == Row \/ Conc
TraceSpec == TInit /\ [][TraceNext]_tvars
=============================================================================
