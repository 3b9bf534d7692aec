----------------------------- MODULE Krpc_Trace -----------------------------
(* The real RPC server, seen by its peers.                                    *)
(* C03  query{q,tx} before the call; fail{q,tx} after a call that cannot      *)
(*      succeed;  answer{tx,kind,v,from} before the       *)
(*      datagram is sent;  handle{q,same,tx,v,from} in the handler;           *)
(*      settled{ok} when everything sent so far must have been handled.       *)
(* C24  send{tx,type,args,to,via,ok} after the call, or after several calls at *)
(*      once, no two alike;  dgram{at,bytes,from}                             *)
(*      received since;  drained;  close;  reply{via,..,bytes} what a peer    *)
(*      got when a handler wrote the reply a builder made                     *)
EXTENDS TraceLib, BencodeOps
VARIABLES out,      \* outstanding: transaction id -> query
          pend,     \* answers not used up: <<tx, v, from>>
          wire,     \* datagrams that must still arrive: set of <<at, tx, type, args, via>>
          closed
tvars == <<tid, l, out, pend, wire, closed>>
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]

(* C03 *)
Query == /\ Is("query") /\ out' = Put(out, Ev.tx, Ev.q) /\ UNCHANGED <<pend, wire, closed>>
(* a query that was never sent is not outstanding *)
Fail == /\ Is("fail") /\ out' = (IF Ev.failed THEN out ELSE Put(out, Ev.tx, Ev.q)) /\ UNCHANGED <<pend, wire, closed>>
Answer == /\ Is("answer")
          /\ pend' = IF Ev.kind = "r" THEN pend \union {<<Ev.tx, Ev.v, Ev.from>>} ELSE pend
          /\ UNCHANGED <<out, wire, closed>>
Handle == /\ Is("handle")
          /\ Ev.tx \in DOMAIN out
          /\ out[Ev.tx] = Ev.q /\ Ev.same
          /\ <<Ev.tx, Ev.v, Ev.from>> \in pend
          /\ out' = Without(out, Ev.tx) /\ pend' = pend \ {<<Ev.tx, Ev.v, Ev.from>>}
          /\ UNCHANGED <<wire, closed>>
Settled == /\ Is("settled") /\ Ev.ok
           /\ \A p \in pend : p[1] \notin DOMAIN out
           /\ pend' = {} /\ UNCHANGED <<out, wire, closed>>

(* C24 *)
RECURSIVE Norm(_), Has(_, _)
Norm(v) == CASE v.t \in {"i", "s"} -> <<v.t, v.v>>
             [] v.t = "l" -> <<"l", [i \in 1..Len(v.v) |-> Norm(v.v[i])]>>
             [] v.t = "d" -> <<"d", {<<v.v[i].k, Norm(v.v[i].v)>> : i \in 1..Len(v.v)}>>
             [] OTHER -> <<v.t>>
Has(v, t) == \/ v.t = t
             \/ v.t = "l" /\ \E i \in 1..Len(v.v) : Has(v.v[i], t)
             \/ v.t = "d" /\ \E i \in 1..Len(v.v) : Has(v.v[i].v, t)
kT == <<116>>  kY == <<121>>  kQ == <<113>>  kA == <<97>>
kId == <<105,100>>  kTarget == <<116,97,114,103,101,116>>  kHash == <<105,110,102,111,95,104,97,115,104>>
kPort == <<112,111,114,116>>  kToken == <<116,111,107,101,110>>
kImplied == <<105,109,112,108,105,101,100,95,112,111,114,116>>
Of(D, k) == LET S == {p \in D : p[1] = k} IN IF S = {} THEN <<"none">> ELSE (CHOOSE p \in S : TRUE)[2]
Only(D, ks) == {p \in D : p[1] \in ks}
(* what the builders are to make of what they are given *)
Expect(via, A) == CASE via = "ping" -> Only(A, {kId})
                    [] via = "find_node" -> Only(A, {kId, kTarget})
                    [] via = "get_peers" -> Only(A, {kId, kHash})
                    [] via = "announce_peer" -> Only(A, {kId, kHash, kPort, kToken})
                    [] OTHER -> A
Fits == LET e == Norm(Ev.args) IN Len(Enc(e)) + Len(Ev.tx) + Len(Ev.type) + 40 <= 65507
Reach == Ev.to \in {"p0", "p1", "p2"} /\ ~closed
Good == ~Has(Ev.args, "x") /\ Reach /\ ~Cfg.big
Send == /\ Is("send")
        /\ IF Has(Ev.args, "nil") THEN wire' = wire \union {<<Ev.to, Ev.tx, Ev.type, {}, "any">>}
           ELSE /\ Ev.ok = Good
                /\ wire' = IF Ev.ok THEN wire \union {<<Ev.to, Ev.tx, Ev.type, Norm(Ev.args)[2], Ev.via>>} ELSE wire
        /\ UNCHANGED <<out, pend, closed>>
Dgram == /\ Is("dgram") /\ Ev.from
         /\ \E w \in wire :
              /\ w[1] = Ev.at /\ wire' = wire \ {w}
              /\ LET r == Parse(Ev.bytes, 1)
                     D == r.val[2]
                     A == Of(D, kA)
                 IN /\ r.ok /\ r.next = Len(Ev.bytes) + 1 /\ r.val[1] = "d"
                    /\ Cardinality(D) = 4
                    /\ Of(D, kT) = <<"s", w[2]>> /\ Of(D, kQ) = <<"s", w[3]>> /\ Of(D, kY) = <<"s", kQ>>
                    /\ w[5] # "any" =>
                         /\ A[1] = "d"
                         /\ LET got == IF w[5] = "announce_peer" /\ Of(A[2], kImplied) = <<"i", <<c0>>>>
                                       THEN {p \in A[2] : p[1] # kImplied} ELSE A[2]
                            IN got = Expect(w[5], w[4])
         /\ UNCHANGED <<out, pend, closed>>
(* the replies of BEP 5, as the builders make them *)
kR == <<114>>  kE == <<101>>  kNodes == <<110,111,100,101,115>>  kValues == <<118,97,108,117,101,115>>
RECURSIVE Flat(_)
Flat(ns) == IF ns = <<>> THEN <<>> ELSE Head(ns).id \o Head(ns).at \o Flat(Tail(ns))
Text(b) == <<"s", b>>
Answers == CASE Ev.via \in {"ping", "announce_peer"} -> {<<kId, Text(Ev.id)>>}
             [] Ev.via = "find_node" -> {<<kId, Text(Ev.id)>>, <<kNodes, Text(Flat(Ev.nodes))>>}
             [] Ev.via = "nodes" -> {<<kId, Text(Ev.id)>>, <<kToken, Text(Ev.token)>>, <<kNodes, Text(Flat(Ev.nodes))>>}
             [] Ev.via = "values" -> {<<kId, Text(Ev.id)>>, <<kToken, Text(Ev.token)>>,
                                      <<kValues, <<"l", [i \in 1..Len(Ev.nodes) |-> Text(Ev.nodes[i].at)]>>>>}
Reply == /\ Is("reply") /\ Ev.from
         /\ LET r == Parse(Ev.bytes, 1)
                D == r.val[2]
            IN /\ r.ok /\ r.next = Len(Ev.bytes) + 1 /\ r.val[1] = "d"
               /\ Of(D, kT) = Text(Ev.tx)
               /\ IF Ev.via \in {"error", "param"}
                  THEN /\ Of(D, kY) = Text(kE)
                       /\ Of(D, kE) = <<"l", <<<<"i", Digits(IF Ev.via = "param" THEN 203 ELSE Ev.code)>>, Text(Ev.msg)>>>>
                  ELSE /\ Of(D, kY) = Text(kR) /\ Of(D, kR) = <<"d", Answers>>
         /\ UNCHANGED <<out, pend, wire, closed>>
Drained == Is("drained") /\ wire = {} /\ UNCHANGED <<out, pend, wire, closed>>
Close == Is("close") /\ closed' = TRUE /\ UNCHANGED <<out, pend, wire>>

TraceInit == TInit /\ out = <<>> /\ pend = {} /\ wire = {} /\ closed = FALSE
TraceNext == Query \/ Fail \/ Reply \/ Answer \/ Handle \/ Settled \/ Send \/ Dgram \/ Drained \/ Close
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
