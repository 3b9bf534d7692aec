------------------------------- MODULE ConcLib -------------------------------
(* Concurrent histories.  Each call is recorded as `inv' (with its arguments  *)
(* and, since the record is made afterwards, its result) and `ret'.  A call   *)
(* takes effect at one instant between the two: the silent step Lin.  `call'  *)
(* is a call with nothing running beside it.                                  *)
EXTENDS TraceLib
VARIABLE pend      \* calls in progress: goroutine -> <<position of inv, done>>

PInit == pend = <<>>
Inv == /\ Is("inv")
       /\ pend' = [g \in DOMAIN pend \union {Ev.g} |->
                     IF g = Ev.g THEN <<l, FALSE>> ELSE pend[g]]
(* the goroutines whose call may take effect now, and the call *)
Waiting == {g \in DOMAIN pend : ~pend[g][2]}
CallOf(g) == Tr[pend[g][1]]
Took(g) == More /\ UNCHANGED <<tid, l>> /\ pend' = [pend EXCEPT ![g] = <<@[1], TRUE>>]
Ret == /\ Is("ret")
       /\ Ev.g \in DOMAIN pend /\ pend[Ev.g][2]
       /\ pend' = [g \in DOMAIN pend \ {Ev.g} |-> pend[g]]
=============================================================================
