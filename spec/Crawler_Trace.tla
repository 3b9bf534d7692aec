--------------------------- MODULE Crawler_Trace ---------------------------
(* The crawler process, seen from the network.                                *)
(*   in{from,ip,bytes}     a datagram sent to it (before it is sent)          *)
(*   out{to,bytes}         a datagram received from it                        *)
(*   settled{ok}           all that was sent has been handled (ok: a later    *)
(*                         ping was answered)                                 *)
(*   dial{at,hash}         a connection it made; the info-hash it asked for   *)
(*   fetched               all fetches have been begun                        *)
(*   log{kept,lines}       what has been added to logs/infohash.log since it   *)
(*                         was last read, and whether what was there before    *)
(*                         is; a line is [ok, msg, addr, hash, port]           *)
(* Cfg: own (node id), boot (bootstrap addresses), socks (addresses that are  *)
(* listened on), tcp (addresses where connections are seen), bucket.          *)
(* Datagrams are parsed here, by BencodeOps.                                  *)
EXTENDS TraceLib, CrawlerOps
VARIABLES owed,    \* replies owed: sequence of [to, t, m, mode, opt, ann]
          asks,    \* find_node queries owed: sequence of [to, opt]
          dials,   \* fetches owed: bag of [at, hash, opt]
          table,   \* nodes stored: set of <<id, address>>
          outst,   \* transaction ids of queries not yet answered
          maybe,   \* those that may or may not be answered
          asked,   \* <<address, transaction id>> of queries received by the crawler so far
          listed,  \* addresses listed so far
          heard,   \* info-hashes in queries so far
          logs,    \* lines owed to the log: a bag
          maylog   \* those that may be missing: of queries whose reply has not been seen
vars == <<owed, asks, dials, table, outst, maybe, asked, listed, heard, logs, maylog>>
tvars == <<tid, l, vars>>
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

(* where an accepted announce is to be fetched from, and whether it can be seen *)
Fetch(A) ==
  LET D == A[2]
      p == Small(Of(D, kPort))
      at == IF Positive(Of(D, kImplied)) THEN Ev.from ELSE Ev.ip \o ":" \o ToString(p)
  IN [at |-> at, hash |-> Of(D, kHash)[2],
      opt |-> at \notin ToSet(Cfg.tcp) \/ Len(Of(D, kHash)[2]) # 20 \/ (~Positive(Of(D, kImplied)) /\ p < 1)]
NoFetch == [at |-> "", hash |-> <<>>, opt |-> TRUE]
(* what the log is to hold of a query answered with a normal reply *)
NoLine == [ok |-> FALSE, msg |-> "", addr |-> "", hash |-> <<>>, port |-> <<>>]
Line(m, A) ==
  IF m \notin {mGet, mAnn} \/ ~IsD(A) THEN NoLine
  ELSE LET h == Of(A[2], kHash)
           p == Of(A[2], kPort)
       IN IF ~IsS(h) \/ (m = mAnn /\ p[1] # "i") THEN NoLine
          ELSE [ok |-> TRUE, msg |-> IF m = mGet THEN "get_peer" ELSE "announce_peer", addr |-> Ev.from, hash |-> h[2],
                port |-> IF m = mGet THEN <<>> ELSE p[2]]

-----------------------------------------------------------------------------
(* nodes listed *)
EntryAt(n, i) == LET b == EntryBytes(n, i) IN
  ToString(b[1]) \o "." \o ToString(b[2]) \o "." \o ToString(b[3]) \o "." \o ToString(b[4]) \o ":"
    \o ToString(b[5] * 256 + b[6])
RECURSIVE Learn(_, _, _, _)   \* [t |-> table afterwards, q |-> queries owed]
Learn(n, i, T, q) ==
  IF i >= Len(n) \div 26 THEN [t |-> T, q |-> q]
  ELSE LET id == EntryId(n, i)
           at == EntryAt(n, i)
           x == <<id, at>>
       IN IF x \in T THEN Learn(n, i + 1, T, Append(q, [to |-> at, opt |-> TRUE]))
          ELSE IF Room(T, id, Cfg.own, Cfg.bucket) THEN Learn(n, i + 1, T \union {x}, Append(q, [to |-> at, opt |-> at \notin ToSet(Cfg.socks)]))
          ELSE Learn(n, i + 1, T, q)

-----------------------------------------------------------------------------
TakeIn(r) ==
  LET D == r.val[2]
      y == Of(D, kY)
      t == Of(D, kT)
      q == Of(D, kQ)
      A == Of(D, kA)
      R == Of(D, kR)
      fuzzy == r.dc \/ r.next # Len(Ev.bytes) + 1 \/ Len(Ev.bytes) > 1024
      Nothing == UNCHANGED vars
  IN IF Answerable(D)
     THEN LET mode == Mode(q[2], A) IN
          /\ owed' = Append(owed, [to |-> Ev.from, t |-> t[2], m |-> q[2], mode |-> IF r.dc THEN "either" ELSE mode,
                                   opt |-> fuzzy,
                                   ann |-> IF On("C06") /\ q[2] = mAnn /\ mode # "err" THEN Fetch(A) ELSE NoFetch,
                                   line |-> IF On("C25") THEN Line(q[2], A) ELSE NoLine])
          /\ asked' = asked \union {<<Ev.from, t[2]>>}
          /\ heard' = IF IsD(A) /\ IsS(Of(A[2], kHash)) THEN heard \union {Of(A[2], kHash)[2]} ELSE heard
          /\ UNCHANGED <<asks, dials, table, outst, maybe, listed, logs, maylog>>
     ELSE IF y = S(kR) /\ IsS(t) /\ (t[2] \in outst \/ t[2] \in maybe)
     THEN IF t[2] \in outst /\ ~fuzzy /\ IsD(R) /\ IsS(Of(R[2], kId)) /\ Len(Of(R[2], kId)[2]) = 20 /\ IsS(Of(R[2], kNodes))
          THEN LET n == Of(R[2], kNodes)[2]
                   f == Learn(n, 0, table, <<>>)
               IN /\ UNCHANGED <<heard, logs, maylog>> /\ table' = f.t /\ asks' = asks \o f.q
                  /\ outst' = outst \ {t[2]}
                  /\ listed' = listed \union {EntryAt(n, i) : i \in 0..(Len(n) \div 26 - 1)}
                  /\ UNCHANGED <<owed, dials, maybe, asked>>
          ELSE /\ outst' = outst \ {t[2]} /\ maybe' = maybe \union {t[2]}
               /\ UNCHANGED <<owed, asks, dials, table, asked, listed, heard, logs, maylog>>
     ELSE IF y = S(kE) /\ IsS(t) /\ t[2] \in outst
     THEN outst' = outst \ {t[2]} /\ maybe' = maybe \union {t[2]} /\ UNCHANGED <<owed, asks, dials, table, asked, listed, heard, logs, maylog>>
     ELSE Nothing
In == /\ Is("in")
      /\ LET r == Parse(Ev.bytes, 1) IN
         IF r.ok /\ r.val[1] = "d" THEN TakeIn(r)
         ELSE IF r.dc THEN maybe' = maybe /\ UNCHANGED <<owed, asks, dials, table, outst, asked, listed, heard, logs, maylog>>
         ELSE UNCHANGED vars

\* bags, as functions
Count(b, x) == IF x \in DOMAIN b THEN b[x] ELSE 0
Inc(b, x) == [y \in DOMAIN b \union {x} |-> Count(b, y) + IF y = x THEN 1 ELSE 0]
Dec(b, x) == [y \in {z \in DOMAIN b : z # x \/ b[z] > 1} |-> b[y] - IF y = x THEN 1 ELSE 0]

Replying(D) == Of(D, kY) # S(kQ)
Reply(D) ==
  LET t == Of(D, kT)
      Ok(o) == (o.mode # "err" /\ NormalReply(D, o.m, Cfg.own)) \/ (o.mode # "ok" /\ ErrorReply(D, o.m))
      All == {i \in 1..Len(owed) : owed[i].to = Ev.to /\ S(owed[i].t) = t}
      Mine == {i \in All : \A j \in All : owed[j] = owed[i] => i <= j}     \* which of equal ones makes no difference
      Fit == {i \in Mine : Ok(owed[i])}                                     \* the reply tells what it is to, if it is right
      Pay(i) == /\ owed' = Drop(owed, i)
                /\ dials' = IF Of(D, kY) = S(kR) /\ owed[i].ann.at # "" THEN Inc(dials, owed[i].ann) ELSE dials
                /\ logs' = IF Of(D, kY) = S(kR) /\ owed[i].line.ok THEN Inc(logs, owed[i].line) ELSE logs
                /\ UNCHANGED <<asks, table, outst, maybe, asked, listed, heard, maylog>>
  IN IF Mine # {} THEN \E i \in (IF On("C01") \/ Fit # {} THEN Fit ELSE Mine) : Pay(i)
     ELSE /\ IF IsS(t) /\ <<Ev.to, t[2]>> \in asked THEN ~On("C01") ELSE ~On("C02") /\ ~On("C01")
          /\ UNCHANGED vars
Ask(D) ==
  LET t == Of(D, kT)
      A == Of(D, kA)
      Right == /\ IsS(t) /\ t[2] \notin outst /\ Of(D, kQ) = S(mFind) /\ IsD(A)
               /\ Of(A[2], kId) = S(Cfg.own) /\ Of(A[2], kTarget) = S(Cfg.own)
      Mine == {i \in 1..Len(asks) : asks[i].to = Ev.to}
      Must == {i \in Mine : ~asks[i].opt}
  IN /\ (On("C05") => Right)
     /\ IF Mine # {}
        THEN asks' = Drop(asks, IF Must # {} THEN CHOOSE i \in Must : TRUE ELSE CHOOSE i \in Mine : TRUE)
        ELSE /\ ~On("C05") /\ (On("C02") => Ev.to \in listed) /\ UNCHANGED asks
     /\ outst' = IF IsS(t) THEN outst \union {t[2]} ELSE outst
     /\ UNCHANGED <<owed, dials, table, maybe, asked, listed, heard, logs, maylog>>
Out == /\ Is("out")
       /\ LET r == Parse(Ev.bytes, 1) IN
          IF r.ok /\ r.val[1] = "d" /\ r.next = Len(Ev.bytes) + 1
          THEN IF Replying(r.val[2]) THEN Reply(r.val[2]) ELSE Ask(r.val[2])
          ELSE ~On("C01") /\ ~On("C02") /\ ~On("C05") /\ UNCHANGED vars

Settled == /\ Is("settled")
           /\ (On("C01") => \A i \in 1..Len(owed) : owed[i].opt)
           /\ (On("C02") => (Ev.ok /\ \A i \in 1..Len(owed) : owed[i].opt \/ owed[i].mode # "ok"))
           /\ (On("C05") => \A i \in 1..Len(asks) : asks[i].opt)
           /\ owed' = <<>> /\ asks' = <<>>
           /\ maylog' = maylog \o SelectSeq([i \in 1..Len(owed) |-> owed[i].line], LAMBDA x : x.ok)
           /\ UNCHANGED <<dials, table, outst, maybe, asked, listed, heard, logs>>
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
(* a line may be there before the reply is (of queries still owed a reply), not after it *)
Log == /\ Is("log")
       /\ LET L == Ev.lines
              Owing(x) == Cardinality({i \in 1..Len(owed) : owed[i].line = x})
              Early(x) == Times(L, x) - Count(logs, x)      \* more than replies account for
              Nth(i) == Cardinality({j \in 1..i : owed[j].line = owed[i].line})
          IN /\ (On("C25") => /\ Ev.kept
                             /\ \A i \in 1..Len(L) : L[i].ok
                             /\ \A x \in ToSet(L) \union DOMAIN logs : 0 <= Early(x) /\ Early(x) <= Owing(x) + Times(maylog, x))
             /\ owed' = IF On("C25") THEN [i \in 1..Len(owed) |-> IF owed[i].line.ok /\ Nth(i) <= Early(owed[i].line) THEN [owed[i] EXCEPT !.line = NoLine] ELSE owed[i]] ELSE owed
       /\ logs' = <<>> /\ UNCHANGED <<asks, dials, table, outst, maybe, asked, listed, heard, maylog>>
Dial == /\ Is("dial")
        /\ LET Exact == {x \in DOMAIN dials : x.at = Ev.at /\ x.hash = Ev.hash}
               Mine == IF Exact # {} THEN Exact ELSE {x \in DOMAIN dials : x.at = Ev.at /\ Len(x.hash) # 20}
           IN IF Mine # {} THEN \E x \in Mine : dials' = Dec(dials, x)
              ELSE ~On("C06") /\ (On("C02") => (Ev.hash \in heard \/ Len(Ev.hash) # 20)) /\ UNCHANGED dials
        /\ UNCHANGED <<owed, asks, table, outst, maybe, asked, listed, heard, logs, maylog>>
Fetched == /\ Is("fetched") /\ (On("C06") => \A x \in DOMAIN dials : x.opt)
           /\ dials' = <<>> /\ UNCHANGED <<owed, asks, table, outst, maybe, asked, listed, heard, logs, maylog>>

TraceInit == /\ TInit /\ owed = <<>> /\ asks = [i \in 1..Len(Traces[tid].cfg.boot) |-> [to |-> Traces[tid].cfg.boot[i], opt |-> FALSE]]
             /\ dials = <<>> /\ logs = <<>> /\ maylog = <<>> /\ table = {} /\ outst = {} /\ maybe = {} /\ heard = {} /\ asked = {} /\ listed = ToSet(Traces[tid].cfg.boot)
TraceNext == In \/ Out \/ Settled \/ Log \/ Dial \/ Fetched
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
