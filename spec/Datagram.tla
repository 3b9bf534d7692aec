------------------------------ MODULE Datagram ------------------------------
(* The shapes of datagrams: a well-formed query, response or error with at     *)
(* most Dev of its entries replaced by another variant (missing, of another    *)
(* type, of another length, ..).  Each is given with what it is to be answered *)
(* with; Classified checks this against Mode, evaluated on a datagram of the   *)
(* shape after encoding and decoding it.                                       *)
EXTENDS CrawlerOps, TLC, Json
CONSTANT Dev
VARIABLE d

F(n, good, others) == [n |-> n, good |-> good, others |-> others]
Header(y) == <<F("y", y, {"none", "int", "Q", "x", "empty", "list"}),
               F("t", "2", {"none", "int", "0", "1", "4", "40", "list"})>>
AFields == <<F("a", "dict", {"none", "str", "list"}), F("id", "20", {"none", "int", "list", "0", "19", "21"})>>
Q(m) == F("q", m, {"none", "int", "upper", "unknown", "empty", "longer", "shorter", "list"})
Shapes == [
  ping |-> Header("q") \o <<Q("ping")>> \o AFields,
  find |-> Header("q") \o <<Q("find_node")>> \o AFields \o <<F("target", "20", {"none", "int", "list", "0", "19", "21"})>>,
  get  |-> Header("q") \o <<Q("get_peers")>> \o AFields \o <<F("hash", "20", {"none", "int", "list", "0", "19", "21"})>>,
  ann  |-> Header("q") \o <<Q("announce_peer")>> \o AFields \o
           <<F("hash", "20", {"none", "int", "list", "0", "19", "21"}),
             F("port", "tcp", {"none", "str", "list", "udp", "0", "neg", "big", "huge"}),
             F("token", "str", {"none", "int", "empty"}),
             F("implied", "none", {"0", "1", "2", "neg", "str", "list", "huge"})>>,
  resp |-> Header("r") \o <<F("r", "dict", {"none", "str", "list", "int"}), F("rid", "20", {"none", "int", "list", "0", "19", "21"}),
             F("nodes", "1", {"none", "int", "list", "0", "3", "partial", "short"}), F("known", "unknown", {"answered", "mangled"})>>,
  err  |-> Header("e") \o <<F("e", "list", {"none", "str", "dict", "emptylist", "int"}), F("known", "unknown", {"answered"})>>]
Kinds == {"ping", "find", "get", "ann", "resp", "err"}

RECURSIVE Fill(_, _, _)     \* all fillings of the fields from i on with at most k variants
Fill(fs, i, k) ==
  IF i > Len(fs) THEN {<<>>}
  ELSE {<<fs[i].good>> \o r : r \in Fill(fs, i + 1, k)}
       \union (IF k = 0 THEN {} ELSE {<<p[1]>> \o p[2] : p \in fs[i].others \X Fill(fs, i + 1, k - 1)})

Val(dd, f) == LET X == {i \in 1..Len(Shapes[dd.kind]) : Shapes[dd.kind][i].n = f}
              IN IF X = {} THEN "none" ELSE dd.v[CHOOSE i \in X : TRUE]
(* what is to come back: by the labels *)
Expect(dd) ==
  LET v(f) == Val(dd, f) IN
  IF dd.kind \in {"resp", "err"} THEN IF v("y") = "q" THEN "bad" ELSE "none"
  ELSE IF v("y") # "q" \/ v("t") \in {"none", "int", "list"} \/ v("q") \in {"none", "int", "list"} THEN "none"
  ELSE IF v("q") \notin {"ping", "find_node", "get_peers", "announce_peer"} THEN "err"
  ELSE IF v("a") # "dict" \/ v("id") # "20" THEN "err"
  ELSE CASE dd.kind = "ping" -> "ok"
         [] dd.kind = "find" -> IF v("target") = "20" THEN "ok" ELSE "either"
         [] dd.kind = "get" -> IF v("hash") \in {"none", "int", "list"} THEN "err" ELSE IF v("hash") = "20" THEN "ok" ELSE "either"
         [] dd.kind = "ann" -> IF v("hash") \in {"none", "int", "list"} \/ v("port") \in {"none", "str", "list"} THEN "err"
                               ELSE IF v("hash") = "20" /\ v("port") \in {"tcp", "udp"} /\ v("token") \in {"str", "empty"}
                                       /\ v("implied") \notin {"str", "list"} THEN "ok" ELSE "either"

-----------------------------------------------------------------------------
Bytes(n) == [i \in 1..n |-> 50]
I(n) == <<"i", n>>
LenOf == [x \in {"0", "1", "2", "4", "19", "20", "21", "40"} |->
            CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "4" -> 4 [] x = "19" -> 19 [] x = "20" -> 20 [] x = "21" -> 21 [] x = "40" -> 40]
Str(x) == CASE x = "int" -> {I(<<55>>)} [] x = "none" -> {} [] x = "list" -> {<<"l", <<>>>>} [] OTHER -> {S(Bytes(LenOf[x]))}
MethodOf(x) == CASE x = "ping" -> mPing [] x = "find_node" -> mFind [] x = "get_peers" -> mGet [] x = "announce_peer" -> mAnn
                 [] x = "empty" -> <<>> [] x = "longer" -> Append(mPing, 0) [] x = "shorter" -> <<112,105,110>>
                 [] x = "upper" -> <<80,73,78,71>> [] OTHER -> <<118,111,116,101>>
Entry(k, X) == {<<k, x>> : x \in X}
Value(dd) ==     \* of the query shapes
  LET v(f) == Val(dd, f)
      num(x) == CASE x = "tcp" -> I(<<54,56,56,49>>) [] x = "udp" -> I(<<56,48>>) [] x = "0" -> I(<<48>>) [] x = "1" -> I(<<49>>)
                  [] x = "2" -> I(<<50>>) [] x = "neg" -> I(<<45,53>>) [] x = "big" -> I(<<54,53,53,51,54>>)
                  [] x = "huge" -> I(<<57,57,57,57,57,57,57,57,57>>) [] x = "str" -> S(<<56,48>>) [] x = "list" -> <<"l", <<>>>>
      opt(x) == IF x = "none" THEN {} ELSE {num(x)}
      tok(x) == CASE x = "str" -> {S(<<116>>)} [] x = "none" -> {} [] x = "int" -> {I(<<49>>)} [] x = "empty" -> {S(<<>>)}
      A == <<"d", Entry(kId, Str(v("id"))) \union Entry(kTarget, Str(v("target"))) \union Entry(kHash, Str(v("hash")))
                  \union Entry(kPort, opt(v("port"))) \union Entry(kToken, IF dd.kind = "ann" THEN tok(v("token")) ELSE {})
                  \union Entry(kImplied, opt(v("implied")))>>
  IN <<"d", Entry(kY, CASE v("y") = "none" -> {} [] v("y") = "int" -> {I(<<49>>)} [] v("y") = "list" -> {<<"l", <<>>>>}
                        [] v("y") = "q" -> {S(kQ)} [] v("y") = "empty" -> {S(<<>>)} [] OTHER -> {S(<<81>>)})
            \union Entry(kT, Str(v("t")))
            \union Entry(kQ, CASE v("q") = "none" -> {} [] v("q") = "int" -> {I(<<49>>)} [] v("q") = "list" -> {<<"l", <<>>>>}
                               [] OTHER -> {S(MethodOf(v("q")))})
            \union Entry(kA, CASE v("a") = "none" -> {} [] v("a") = "str" -> {S(<<97>>)} [] v("a") = "list" -> {<<"l", <<>>>>}
                               [] OTHER -> {A})>>
Classified ==
  d.kind \in {"ping", "find", "get", "ann"} =>
    LET r == Parse(Enc(Value(d)), 1)
        D == r.val[2]
    IN /\ r.ok /\ ~r.dc /\ r.val = Value(d)
       /\ Expect(d) = IF ~Answerable(D) THEN "none" ELSE Mode(Of(D, kQ)[2], Of(D, kA))

Init == \E k \in Kinds : \E v \in Fill(Shapes[k], 1, Dev) : d = [kind |-> k, v |-> v]
Spec == Init /\ [][UNCHANGED d]_d
Labels(dd) == [i \in 1..Len(dd.v) |-> <<Shapes[dd.kind][i].n, dd.v[i]>>]
PrintShape == PrintT(<<"BEH", ToJson([kind |-> d.kind, v |-> Labels(d), exp |-> Expect(d)])>>)
=============================================================================
