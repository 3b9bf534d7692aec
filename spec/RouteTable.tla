----------------------------- MODULE RouteTable -----------------------------
(* The routing table as designed: a host, buckets 0..L of at most K nodes,    *)
(* bucket i < L holding nodes that share exactly i leading bits with the      *)
(* host, bucket L (the last) holding the host and everything that shares L or *)
(* more.  Only a full last bucket is divided, at most Cap times.  AddNode     *)
(* follows dht/routetable.go: AddNode -> addNode -> addNodeWithsplitBucket.   *)
(*                                                                            *)
(* A node is <<class, variant, addr>>: its prefix length, which id of that    *)
(* prefix length it has, and its address.                                     *)
EXTENDS RouteTableOps, TLC, Json

CONSTANTS K,        \* bucket size
          Cap,      \* division limit
          MaxPL,    \* prefix length of the host itself
          Variants, \* distinct ids per prefix length
          Addrs,    \* distinct addresses
          MaxLen    \* bound on the number of insertions (exploration only)

Host  == <<MaxPL, 0, 0>>
Nodes == ((0..(MaxPL - 1)) \X Variants \X Addrs) \union {<<MaxPL, 0, a>> : a \in Addrs \union {0}}
PL    == [n \in Nodes |-> n[1]]

VARIABLES buckets,  \* 0..L -> set of nodes
          last,     \* L
          size,     \* the reported size
          res,      \* result of the latest insertion: "none", "ok", "err"
          arg,      \* its argument
          before,   \* the stored set before it
          hist      \* insertions so far (hidden by VIEW; used for generation)
vars == <<buckets, last, size, res, arg, before, hist>>

Stored == UNION {buckets[i] : i \in DOMAIN buckets}
Slot(n, d) == Min(PL[n], d)

(* place a set of nodes into d+1 buckets *)
Place(S, d) == [i \in 0..d |-> {n \in S : Slot(n, d) = i}]

Init == /\ buckets = [i \in 0..0 |-> {Host}] /\ last = 0 /\ size = 1
        /\ res = "none" /\ arg = Host /\ before = {Host} /\ hist = <<>>

(* divide the last bucket until n has room or the limit is reached *)
RECURSIVE Divide(_, _, _)
Divide(bs, d, n) ==
  IF Slot(n, d) < d \/ Cardinality(bs[d]) < K \/ d >= Cap THEN <<bs, d>>
  ELSE LET all == UNION {bs[i] : i \in DOMAIN bs}
       IN  Divide(Place(all, d + 1), d + 1, n)

AddNode(n) ==
  /\ Len(hist) < MaxLen
  /\ hist' = Append(hist, n) /\ arg' = n /\ before' = Stored
  /\ IF n \in buckets[Slot(n, last)]
     THEN /\ res' = "dup" /\ UNCHANGED <<buckets, last, size>>
     ELSE LET r  == Divide(buckets, last, n)
              bs == r[1]
              d  == r[2]
              c  == Slot(n, d)
          IN /\ last' = d
             /\ IF Cardinality(bs[c]) < K
                THEN /\ buckets' = [bs EXCEPT ![c] = @ \union {n}]
                     /\ size' = size + 1 /\ res' = "ok"
                ELSE /\ buckets' = bs /\ size' = size /\ res' = "err"

Next == \E n \in Nodes : AddNode(n)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* FindClosest(id): buckets from the id's own slot up, then down, until more  *)
(* than k nodes are collected; q is the id's prefix length with the host.     *)
RECURSIVE Collect(_, _, _)
Collect(order, k, acc) ==
  IF order = <<>> \/ Cardinality(acc) > k THEN acc
  ELSE Collect(Tail(order), k, acc \union buckets[Head(order)])
Up(i)   == [j \in 1..(last - i + 1) |-> i + j - 1]
Down(i) == [j \in 1..i |-> i - j]
Closest(q, k) == LET s == Min(q, last) IN Collect(Up(s) \o Down(s), k, {})
(* prefix that the id of node q shares with node n: exact when the prefixes   *)
(* with the host differ                                                       *)
Shares(q, n) == IF q = n[1] THEN {q + 1} ELSE {Min(q, n[1])}

-----------------------------------------------------------------------------
(* C11 *)
TypeOK      == DOMAIN buckets = 0..last /\ last <= Cap
Bounded     == \A i \in 0..last : Cardinality(buckets[i]) <= K
RightBucket == \A i \in 0..last : \A n \in buckets[i] : Slot(n, last) = i
HostStays   == Host \in buckets[last]
FitsAtLimit == FitsAt(Stored, PL, K, Cap)
NeverLose   == before \subseteq Stored
NeverLoses  == [][Stored \subseteq UNION {buckets'[i] : i \in DOMAIN buckets'}]_vars
(* C12: the abstract meaning of an insertion, free of buckets and divisions    *)
Abstract == res # "none" =>
  \/ res = "dup" /\ arg \in before /\ Stored = before
  \/ res = "ok"  /\ arg \notin before /\ Stored = before \union {arg}
                 /\ FitsAt(before \union {arg}, PL, K, Cap)
  \/ res = "err" /\ arg \notin before /\ Stored = before
                 /\ ~FitsAt(before \union {arg}, PL, K, Cap)
SizeOK == size = Cardinality(Stored)
(* C13 *)
ClosestOK == \A q \in 0..MaxPL : \A k \in 1..3 :
   LET R == Closest(q, k) IN
     /\ R \subseteq Stored
     /\ Cardinality(R) >= Min(k, Cardinality(Stored))
     /\ \A s \in Stored \ R : s[1] # q    \* those may share everything
     /\ \A r \in R : \A s \in Stored \ R :
          \A x \in Shares(q, s) : \A y \in Shares(q, r) : x <= y

View == <<buckets, last, size, res, arg, before>>
GenView == <<buckets, last>>
(* transition cover: printed for every generated transition under GenView     *)
PrintBeh == hist = <<>> \/ PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
