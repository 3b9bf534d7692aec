----------------------------- MODULE CrawlerOps -----------------------------
(* What the DHT protocol (BEP 5, as the crawler supports it) asks of a node    *)
(* for a datagram that has been decoded to a value of BencodeOps.              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, BencodeOps, RouteTableOps

S(x) == <<"s", x>>
kT == <<116>>  kY == <<121>>  kQ == <<113>>  kA == <<97>>  kR == <<114>>  kE == <<101>>
kId == <<105,100>>  kTarget == <<116,97,114,103,101,116>>  kHash == <<105,110,102,111,95,104,97,115,104>>
kPort == <<112,111,114,116>>  kToken == <<116,111,107,101,110>>  kNodes == <<110,111,100,101,115>>
kValues == <<118,97,108,117,101,115>>
kImplied == <<105,109,112,108,105,101,100,95,112,111,114,116>>
mPing == <<112,105,110,103>>  mFind == <<102,105,110,100,95,110,111,100,101>>
mGet == <<103,101,116,95,112,101,101,114,115>>
mAnn == <<97,110,110,111,117,110,99,101,95,112,101,101,114>>
Methods == {mPing, mFind, mGet, mAnn}
(* the entry of a dictionary *)
Of(D, k) == LET X == {p \in D : p[1] = k} IN IF X = {} THEN <<"none">> ELSE (CHOOSE p \in X : TRUE)[2]
IsS(v) == v[1] = "s"
IsD(v) == v[1] = "d"
(* a natural number of at most five digits; 0 for any other *)
Small(v) == IF v[1] # "i" \/ v[2][1] = cMinus \/ Len(v[2]) > 5 THEN 0 ELSE DecVal(v[2], 1, 0)
Positive(v) == v[1] = "i" /\ v[2][1] # cMinus /\ v[2] # <<c0>>

(* a datagram with dictionary D is to be answered *)
Answerable(D) == Of(D, kY) = S(kQ) /\ IsS(Of(D, kT)) /\ IsS(Of(D, kQ))

(* what a query is to be answered with: ok (a normal reply), err, or either    *)
(* where the protocol leaves it open                                           *)
Mode(m, A) ==
  IF m \notin Methods \/ ~IsD(A) THEN "err"
  ELSE LET D == A[2]
           id == Of(D, kId)
           h == Of(D, kHash)
       IN IF ~IsS(id) \/ Len(id[2]) # 20 THEN "err"
          ELSE IF m = mPing THEN "ok"
          ELSE IF m = mFind THEN IF IsS(Of(D, kTarget)) /\ Len(Of(D, kTarget)[2]) = 20 THEN "ok" ELSE "either"
          ELSE IF ~IsS(h) THEN "err"
          ELSE IF m = mAnn /\ Of(D, kPort)[1] # "i" THEN "err"
          ELSE IF Len(h[2]) # 20 THEN "either"
          ELSE IF m = mGet THEN "ok"
          ELSE IF Small(Of(D, kPort)) \in 1..65535 /\ IsS(Of(D, kToken)) /\ Of(D, kImplied)[1] \in {"none", "i"}
               THEN "ok" ELSE "either"

Contains(s, w) == \E i \in 1..(Len(s) - Len(w) + 1) : SubSeq(s, i, i + Len(w) - 1) = w
wGor == <<103,111,114,111,117,116,105,110,101>>  \* goroutine
wGo == <<46,103,111>>                            \* .go
wRun == <<114,117,110,116,105,109,101>>          \* runtime
(* a reason that is short and tells nothing of the program; q, the method     *)
(* asked for, may be repeated in it                                           *)
Short(m, q) == /\ Len(m) > 0 /\ Len(m) <= 160 + Len(q)
               /\ \/ Contains(q, wGor) \/ Contains(q, wGo) \/ Contains(q, wRun)
                  \/ ~(Contains(m, wGor) \/ Contains(m, wGo) \/ Contains(m, wRun))
NormalReply(D, m, own) ==
  LET r == Of(D, kR) IN
  /\ Of(D, kY) = S(kR) /\ IsD(r) /\ Of(r[2], kId) = S(own)
  /\ (m = mFind => (IsS(Of(r[2], kNodes)) /\ Len(Of(r[2], kNodes)[2]) % 26 = 0))
  /\ (m = mGet => (IsS(Of(r[2], kToken)) /\ (IsS(Of(r[2], kNodes)) \/ Of(r[2], kValues)[1] = "l")))
ErrorReply(D, m) ==
  LET e == Of(D, kE) IN
  /\ Of(D, kY) = S(kE) /\ e[1] = "l" /\ Len(e[2]) = 2
  /\ e[2][1] = <<"i", <<50,48,51>>>> /\ IsS(e[2][2]) /\ Short(e[2][2][2], m)

(* compact node lists: entry i (from 0) of n *)
EntryId(n, i) == SubSeq(n, 26 * i + 1, 26 * i + 20)
EntryBytes(n, i) == SubSeq(n, 26 * i + 21, 26 * i + 26)
(* there is room in table T, of pairs <<id, address>>, for one more with this id: k per distance from own,  *)
(* where own occupies a place itself                                                                         *)
Room(T, id, own, k) == LET c == Prefix(id, own) IN Cardinality({x \in T : Prefix(x[1], own) = c}) + (IF c = 160 THEN 1 ELSE 0) < k
=============================================================================
