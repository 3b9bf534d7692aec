--------------------------- MODULE RouteTableOps ---------------------------
(* Vocabulary of the routing table: prefix lengths of 160-bit ids (as 20     *)
(* bytes) and what it means for a set of nodes to fit.                       *)
EXTENDS Naturals, Sequences, FiniteSets

HighBit(x) == IF x >= 128 THEN 0 ELSE IF x >= 64 THEN 1 ELSE IF x >= 32 THEN 2
              ELSE IF x >= 16 THEN 3 ELSE IF x >= 8 THEN 4 ELSE IF x >= 4 THEN 5
              ELSE IF x >= 2 THEN 6 ELSE 7

(* number of leading bits a byte pair (x /= y) shares *)
RECURSIVE ByteShare(_, _, _)
ByteShare(x, y, bit) ==
  IF (x \div bit) # (y \div bit) THEN 0 ELSE 1 + ByteShare(x, y, bit \div 2)

(* number of leading bits shared by two ids *)
RECURSIVE PrefixFrom(_, _, _)
PrefixFrom(a, b, i) ==
  IF i > Len(a) THEN 8 * Len(a)
  ELSE IF a[i] = b[i] THEN PrefixFrom(a, b, i + 1)
  ELSE 8 * (i - 1) + ByteShare(a[i], b[i], 128)
Prefix(a, b) == PrefixFrom(a, b, 1)

Min(a, b) == IF a < b THEN a ELSE b

(* S fits in a table divided d times: at most k nodes in each of the ranges   *)
(* 0..d-1 and at most k in the remaining range. pl gives each node's prefix.  *)
FitsAt(S, pl, k, d) ==
  \A c \in {Min(pl[n], d) : n \in S} :
     Cardinality({n \in S : Min(pl[n], d) = c}) <= k
=============================================================================
