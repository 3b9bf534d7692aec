-------------------------- MODULE RouteTable_Trace --------------------------
(* Executions of the real routing table (package dht) against RouteTable's    *)
(* abstract meaning.  Each trace: cfg = [host, ids (of nodes), addrs, qids    *)
(* (ids asked for), k, cap]; nodes are numbered 1..N, node 1 is the host.     *)
(*   add     n ok gain lost size   result of AddNode, change of the observed  *)
(*                                 stored set, and the reported size after it *)
(*   inv/ret g op ..               the same calls from concurrent goroutines  *)
(*   find    q ret                 Find (0 nothing, -1 something never added) *)
(*   closest q k ret               FindClosest                                *)
(* The stored set is what lookups give access to: node n is observed stored   *)
(* when Find of its id returns it or some large FindClosest lists it.         *)
EXTENDS TraceLib, RouteTableOps

VARIABLES stored, \* observed stored set
          size,   \* reported size
          pend,   \* concurrent calls that have begun: goroutine -> state of the call
          pl      \* prefix lengths
tvars == <<tid, l, stored, size, pend, pl>>

C == Traces[tid].cfg
PLof(t) == [n \in 1..Len(Traces[t].cfg.ids) |->
              Prefix(Traces[t].cfg.ids[n], Traces[t].cfg.ids[1])]
N == Len(C.ids)
Fits(S) == FitsAt(S, pl, C.k, C.cap)
QShare(q, n) == Prefix(C.qids[q], C.ids[n])

TraceInit == TInit /\ stored = {1} /\ size = 1 /\ pend = <<>> /\ pl = PLof(tid)

-----------------------------------------------------------------------------
(* C11: never lost, and never more than the ranges hold *)
C11ok(new) == /\ stored \subseteq new
              /\ Fits(new)
              /\ 1 \in new
(* C12: what an insertion of n may do *)
C12add(n, ok, new) ==
  IF n \in stored THEN new = stored
  ELSE /\ ok <=> n \in new
       /\ ok <=> Fits(stored \union {n})
       /\ new = IF ok THEN stored \union {n} ELSE stored

Add ==
  /\ Is("add")
  /\ LET new == (stored \union ToSet(Ev.gain)) \ ToSet(Ev.lost) IN
       /\ On("C11") => C11ok(new)
       /\ On("C12") => C12add(Ev.n, Ev.ok, new) /\ Ev.size = Cardinality(new)
       /\ stored' = new
  /\ size' = Ev.size
  /\ UNCHANGED <<pend, pl>>

(* an observation of the whole table between insertions *)
Dump ==
  /\ Is("dump")
  /\ LET new == ToSet(Ev.stored) IN
       /\ On("C11") => C11ok(new)
       /\ On("C12") => new = stored /\ Ev.size = Cardinality(new)
       /\ stored' = new
  /\ size' = Ev.size
  /\ UNCHANGED <<pend, pl>>

Find ==
  /\ Is("find")
  /\ On("C13") =>
       IF \E n \in stored : C.ids[n] = C.qids[Ev.q]
       THEN Ev.ret \in {n \in stored : C.ids[n] = C.qids[Ev.q]}
       ELSE Ev.ret = 0
  /\ (On("C11") /\ \E n \in stored : C.ids[n] = C.qids[Ev.q])   \* findable
       => (Ev.ret > 0 /\ C.ids[Ev.ret] = C.qids[Ev.q])
  /\ UNCHANGED <<stored, size, pend, pl>>

Closest ==
  /\ Is("closest")
  /\ On("C13") =>
       LET R == ToSet(Ev.ret)
           sh == [n \in stored |-> QShare(Ev.q, n)] IN
         /\ R \subseteq stored
         /\ NoDup(Ev.ret)
         /\ Len(Ev.ret) >= Min(Ev.k, Cardinality(stored))
         /\ \A r \in R : \A s \in stored \ R : sh[s] <= sh[r]
  /\ UNCHANGED <<stored, size, pend, pl>>

-----------------------------------------------------------------------------
(* Concurrent calls take effect at one instant between inv and ret.           *)
Inv == /\ Is("inv")
       /\ pend' = [g \in DOMAIN pend \union {Ev.g} |->
                     IF g = Ev.g THEN [at |-> l, done |-> FALSE] ELSE pend[g]]
       /\ UNCHANGED <<stored, size, pl>>
(* the event holding the result of the call begun at position i *)
RetOf(i) == Tr[CHOOSE j \in (i + 1)..Len(Tr) :
                 /\ Tr[j].e = "ret" /\ Tr[j].g = Tr[i].g
                 /\ \A m \in (i + 1)..(j - 1) : ~(Tr[m].e = "ret" /\ Tr[m].g = Tr[i].g)]
Lin == /\ More
       /\ \E g \in DOMAIN pend :
            /\ ~pend[g].done
            /\ LET i == pend[g].at
                   c == Tr[i]
                   r == RetOf(i)
               IN CASE c.op = "add" ->
                         LET new == IF Fits(stored \union {c.n}) THEN stored \union {c.n} ELSE stored
                         IN /\ On("C12") => (c.n \in stored \/ (r.ok <=> c.n \in new))
                            /\ stored' = new
                    [] c.op = "size" ->
                         /\ On("C12") => r.size = Cardinality(stored)
                         /\ UNCHANGED stored
                    [] c.op = "find" ->
                         /\ On("C13") =>
                              IF \E n \in stored : C.ids[n] = C.qids[c.q]
                              THEN r.ret \in {n \in stored : C.ids[n] = C.qids[c.q]}
                              ELSE r.ret = 0
                         /\ UNCHANGED stored
                    [] c.op = "closest" ->
                         /\ On("C13") =>
                              LET R == ToSet(r.ret)
                                  sh == [n \in stored |-> QShare(c.q, n)] IN
                                /\ R \subseteq stored
                                /\ NoDup(r.ret)
                                /\ Len(r.ret) >= Min(c.k, Cardinality(stored))
                                /\ \A x \in R : \A s \in stored \ R : sh[s] <= sh[x]
                         /\ UNCHANGED stored
            /\ pend' = [pend EXCEPT ![g].done = TRUE]
       /\ UNCHANGED <<tid, l, size, pl>>
Ret == /\ Is("ret")
       /\ Ev.g \in DOMAIN pend /\ pend[Ev.g].done
       /\ pend' = [g \in DOMAIN pend \ {Ev.g} |-> pend[g]]
       /\ UNCHANGED <<stored, size, pl>>

(* results given out earlier still say what they said *)
Kept == /\ Is("kept") /\ (On("C13") => Ev.same)
        /\ UNCHANGED <<stored, size, pend, pl>>
TraceNext == Kept \/ Add \/ Dump \/ Find \/ Closest \/ Inv \/ Lin \/ Ret
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
