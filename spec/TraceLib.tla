------------------------------ MODULE TraceLib ------------------------------
(* Shared frame of every trace specification.  A trace file holds an array   *)
(* of recorded executions [cfg |-> .., ev |-> <<event, ..>>]; `tid' selects  *)
(* one, `l' is the position in it.  A trace is accepted when some behaviour  *)
(* of the specification consumes all its events; Report prints the others    *)
(* with the longest prefix any behaviour could explain.                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Focus  == IOEnv.FOCUS
(* the clauses of property p are enforced *)
On(p) == Focus = "ALL" \/ Focus = p

VARIABLES tid, l

Tr  == Traces[tid].ev
Cfg == Traces[tid].cfg
Ev  == Tr[l]

TInit  == tid \in 1..Len(Traces) /\ l = 1 /\ TLCSet(tid, 1)
More   == l <= Len(Tr)
Step   == l <= Len(Tr) /\ l' = l + 1 /\ UNCHANGED tid
Is(e)  == l <= Len(Tr) /\ Tr[l].e = e /\ l' = l + 1 /\ UNCHANGED tid
Silent == l <= Len(Tr) /\ UNCHANGED <<tid, l>>

Progress == TLCSet(tid, IF l > TLCGet(tid) THEN l ELSE TLCGet(tid))
Report ==
  /\ \A i \in 1..Len(Traces) :
        TLCGet(i) > Len(Traces[i].ev) \/ PrintT(<<"REJ", i, TLCGet(i) - 1>>)
  /\ PrintT(<<"REPORT-DONE", Len(Traces)>>)

ToSet(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(ToSet(s)) = Len(s)
=============================================================================
