----------------------------- MODULE Resources ------------------------------
(* What the crawler holds while messages are handled and metadata is fetched: *)
(* connections, goroutines besides its workers, and entries it remembers.     *)
(* A message is handled by one of P workers; an announce waits in a queue of  *)
(* Q for one of F fetch workers, whose fetch may end in several ways.         *)
(* A response that lists a node puts it into the table (of Cap nodes), with a *)
(* query to it, which is outstanding until it is answered.                    *)
(* Broken: "none", or a design known to be wrong:                             *)
(*   "open"      a fetch that fails leaves its connection open                *)
(*   "waiter"    a fetch that times out leaves a goroutine behind             *)
(*   "remember"  every response leaves an entry                               *)
(*   "eager"     a fetch is begun at once, by a goroutine of its own          *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS P, F, Q, Cap, MaxIn, Broken
VARIABLES n,        \* messages so far
          busy,     \* of the P workers: kind of what it handles, or "idle"
          queue, fetch, conns, extra, table, outstanding, kept
vars == <<n, busy, queue, fetch, conns, extra, table, outstanding, kept>>
W == 1..P
FW == 1..F
Init == /\ n = 0 /\ busy = [w \in W |-> "idle"] /\ queue = 0 /\ fetch = [f \in FW |-> "idle"] /\ conns = 0 /\ extra = 0
        /\ table = 0 /\ outstanding = 1 /\ kept = 0
Arrive(w, k) == /\ n < MaxIn /\ busy[w] = "idle" /\ n' = n + 1 /\ busy' = [busy EXCEPT ![w] = k]
                /\ UNCHANGED <<queue, fetch, conns, extra, table, outstanding, kept>>
Other(w) == /\ busy[w] \in {"query", "junk"} /\ busy' = [busy EXCEPT ![w] = "idle"]
            /\ UNCHANGED <<n, queue, fetch, conns, extra, table, outstanding, kept>>
Answered(w) == /\ busy[w] = "response" /\ busy' = [busy EXCEPT ![w] = "idle"] /\ outstanding > 0
               /\ \E new \in 0..(Cap - table) : table' = table + new /\ outstanding' = outstanding - 1 + new
               /\ kept' = kept + (IF Broken = "remember" THEN 1 ELSE 0)
               /\ UNCHANGED <<n, queue, fetch, conns, extra>>
Unknown(w) == /\ busy[w] = "response" /\ busy' = [busy EXCEPT ![w] = "idle"]
              /\ kept' = kept + (IF Broken = "remember" THEN 1 ELSE 0)
              /\ UNCHANGED <<n, queue, fetch, conns, extra, table, outstanding>>
Announce(w) == /\ busy[w] = "announce" /\ busy' = [busy EXCEPT ![w] = "idle"]
               /\ IF Broken = "eager" THEN extra' = extra + 1 /\ conns' = conns + 1 /\ UNCHANGED queue
                  ELSE queue < Q /\ queue' = queue + 1 /\ UNCHANGED <<extra, conns>>
               /\ UNCHANGED <<n, fetch, table, outstanding, kept>>
EagerEnd == /\ Broken = "eager" /\ extra > 0 /\ extra' = extra - 1 /\ conns' = conns - 1
            /\ UNCHANGED <<n, busy, queue, fetch, table, outstanding, kept>>
Dial(f) == /\ fetch[f] = "idle" /\ queue > 0 /\ queue' = queue - 1
           /\ \/ fetch' = [fetch EXCEPT ![f] = "talk"] /\ conns' = conns + 1
              \/ UNCHANGED <<fetch, conns>>          \* refused
           /\ UNCHANGED <<n, busy, extra, table, outstanding, kept>>
End(f, how) == /\ fetch[f] = "talk" /\ fetch' = [fetch EXCEPT ![f] = "idle"]
               /\ conns' = (IF Broken = "open" /\ how = "failed" THEN conns ELSE conns - 1)
               /\ extra' = (IF Broken = "waiter" /\ how = "timeout" THEN extra + 1 ELSE extra)
               /\ UNCHANGED <<n, busy, queue, table, outstanding, kept>>
Next == \/ \E w \in W : Other(w) \/ Answered(w) \/ Unknown(w) \/ Announce(w)
        \/ \E w \in W, k \in {"query", "junk", "response", "announce"} : Arrive(w, k)
        \/ \E f \in FW : Dial(f) \/ \E how \in {"done", "failed", "timeout"} : End(f, how)
        \/ EagerEnd
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Rest == /\ \A w \in W : busy[w] = "idle"
        /\ \A f \in FW : fetch[f] = "idle"
        /\ queue = 0
Conns == conns <= F
Queue == queue <= Q
Given == Rest => conns = 0 /\ extra = 0
Memory == kept + outstanding <= Cap + 1       \* the nodes of the table, and the first
=============================================================================
