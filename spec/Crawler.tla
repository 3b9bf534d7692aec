------------------------------ MODULE Crawler ------------------------------
(* The crawler process: datagrams come in, workers handle them at the same    *)
(* time, accepted announces go through a bounded queue to fetchers, and       *)
(* responses to the crawler's own queries make it query the nodes it learns.  *)
(* Kinds of datagrams: "good" (a valid query), "bad" (a query to be answered  *)
(* with an error), "ann" (a valid announce), "junk" (nothing to be answered), *)
(* "resp" (a response carrying transaction id tx and a list of nodes).        *)
(* Broken: "none", or a design known to be wrong:                             *)
(*   "register" replies are put together in a place the workers share         *)
(*   "drop"     an announce that finds the queue full is answered but lost    *)
(*   "first"    the announce is answered, then queued by a try that may fail  *)
(*   "again"    a response's query stays outstanding                          *)
(*   "hang"     a fetch may never end                                         *)
(*   "die"      junk ends its worker                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Workers, Fetchers, QCap, MaxIn, Nodes, Cap, Letters, Broken

VARIABLES hist,     \* what was sent to it: sequence of [k, tx, ns]
          inbox, w, queue, f,
          reg,      \* the shared place of the broken design
          out,      \* replies sent: sequence of [to, body]
          outst, nexttx, table,
          asked,    \* queries sent: sequence of nodes
          begun,    \* fetches begun: sequence of announces
          handled   \* transaction ids whose handler ran
vars == <<hist, inbox, w, queue, f, reg, out, outst, nexttx, table, asked, begun, handled>>
Idle == [pc |-> "idle", i |-> 0, ns |-> <<>>]
Range(s) == {s[i] : i \in 1..Len(s)}
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})

Init == /\ hist = <<>> /\ inbox = <<>> /\ w = [p \in Workers |-> Idle] /\ queue = <<>> /\ f = [p \in Fetchers |-> 0]
        /\ reg = 0 /\ out = <<>> /\ outst = {1} /\ nexttx = 2 /\ table = {} /\ asked = <<"boot">> /\ begun = <<>> /\ handled = <<>>

(* the environment *)
Lists == {<<>>} \union {<<n>> : n \in Nodes} \union {<<m, n>> : m \in Nodes, n \in Nodes}
Arrive(d) == /\ Len(hist) < MaxIn
             /\ hist' = Append(hist, d) /\ inbox' = Append(inbox, Len(hist) + 1)
             /\ UNCHANGED <<w, queue, f, reg, out, outst, nexttx, table, asked, begun, handled>>
In == \/ \E k \in Letters \ {"resp"} : Arrive([k |-> k, tx |-> 0, ns |-> <<>>])
      \/ /\ "resp" \in Letters
         /\ \E tx \in 1..(nexttx - 1) \union {99} : \E ns \in Lists : Arrive([k |-> "resp", tx |-> tx, ns |-> ns])

Take(p) == /\ w[p].pc = "idle" /\ inbox # <<>>
           /\ inbox' = Tail(inbox)
           /\ LET i == Head(inbox)
                  d == hist[i]
                  resp == IF d.tx \in outst THEN "learn" ELSE "idle"
              IN /\ w' = [w EXCEPT ![p] = CASE d.k \in {"good", "bad"} -> [pc |-> "build", i |-> i, ns |-> <<>>]
                                             [] d.k = "ann" -> [pc |-> IF Broken = "first" THEN "build" ELSE "queue", i |-> i, ns |-> <<>>]
                                             [] d.k = "resp" -> IF resp = "learn" THEN [pc |-> "learn", i |-> i, ns |-> d.ns] ELSE Idle
                                             [] OTHER -> IF Broken = "die" THEN [Idle EXCEPT !.pc = "dead"] ELSE Idle]
                 /\ outst' = IF d.k = "resp" /\ Broken # "again" THEN outst \ {d.tx} ELSE outst
                 /\ handled' = IF d.k = "resp" /\ resp = "learn" THEN Append(handled, d.tx) ELSE handled
           /\ UNCHANGED <<hist, queue, f, reg, out, nexttx, table, asked, begun>>
Queue(p) == /\ w[p].pc = "queue"
            /\ \/ /\ Len(queue) < QCap /\ queue' = Append(queue, w[p].i)
               \/ /\ Broken \in {"drop"} /\ Len(queue) = QCap /\ UNCHANGED queue
            /\ w' = [w EXCEPT ![p].pc = "build"]
            /\ UNCHANGED <<hist, inbox, f, reg, out, outst, nexttx, table, asked, begun, handled>>
Build(p) == /\ w[p].pc = "build" /\ reg' = w[p].i /\ w' = [w EXCEPT ![p].pc = "send"]
            /\ UNCHANGED <<hist, inbox, queue, f, out, outst, nexttx, table, asked, begun, handled>>
Send(p) == /\ w[p].pc = "send"
           /\ LET i == w[p].i IN
              /\ out' = Append(out, [to |-> i, body |-> IF Broken = "register" THEN reg ELSE i])
              /\ queue' = IF Broken = "first" /\ hist[i].k = "ann" /\ Len(queue) < QCap THEN Append(queue, i) ELSE queue
           /\ w' = [w EXCEPT ![p] = Idle]
           /\ UNCHANGED <<hist, inbox, f, reg, outst, nexttx, table, asked, begun, handled>>
Learn(p) == /\ w[p].pc = "learn"
            /\ IF w[p].ns = <<>> THEN w' = [w EXCEPT ![p] = Idle] /\ UNCHANGED table
               ELSE LET n == Head(w[p].ns) IN
                    IF n \in table \/ Cardinality(table) >= Cap
                    THEN w' = [w EXCEPT ![p].ns = Tail(@)] /\ UNCHANGED table
                    ELSE w' = [w EXCEPT ![p].pc = "ask"] /\ table' = table \union {n}
            /\ UNCHANGED <<hist, inbox, queue, f, reg, out, outst, nexttx, asked, begun, handled>>
Ask(p) == /\ w[p].pc = "ask"
          /\ w' = [w EXCEPT ![p].pc = "learn", ![p].ns = Tail(@)]
          /\ asked' = Append(asked, Head(w[p].ns)) /\ outst' = outst \union {nexttx} /\ nexttx' = nexttx + 1
          /\ UNCHANGED <<hist, inbox, queue, f, reg, out, table, begun, handled>>
Begin(q) == /\ f[q] = 0 /\ queue # <<>> /\ f' = [f EXCEPT ![q] = Head(queue)] /\ queue' = Tail(queue)
            /\ begun' = Append(begun, Head(queue))
            /\ UNCHANGED <<hist, inbox, w, reg, out, outst, nexttx, table, asked, handled>>
End(q) == /\ f[q] # 0 /\ f' = [f EXCEPT ![q] = 0]    \* obtained, refused, or given up in time
          /\ UNCHANGED <<hist, inbox, w, queue, reg, out, outst, nexttx, table, asked, begun, handled>>

Next == In \/ (\E p \in Workers : Take(p) \/ Queue(p) \/ Build(p) \/ Send(p) \/ Learn(p) \/ Ask(p)) \/ (\E q \in Fetchers : Begin(q) \/ End(q))
Fair == /\ \A p \in Workers : WF_vars(Take(p)) /\ SF_vars(Queue(p)) /\ WF_vars(Build(p)) /\ WF_vars(Send(p)) /\ WF_vars(Learn(p)) /\ WF_vars(Ask(p))
        /\ \A q \in Fetchers : WF_vars(Begin(q)) /\ (Broken # "hang" => WF_vars(End(q)))
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fair

-----------------------------------------------------------------------------
Wants(i) == hist[i].k \in {"good", "bad", "ann"}
Replies(i) == Cardinality({j \in 1..Len(out) : out[j].to = i})
Quiet == inbox = <<>> /\ queue = <<>> /\ (\A p \in Workers : w[p].pc = "idle") /\ (\A q \in Fetchers : f[q] = 0)
(* C01 *)
OwnReply == /\ \A j \in 1..Len(out) : out[j].body = out[j].to /\ Wants(out[j].to)
            /\ \A i \in 1..Len(hist) : Replies(i) <= 1
Answered == Quiet => \A i \in 1..Len(hist) : Wants(i) => Replies(i) = 1
(* C06 *)
OneFetch == /\ \A i \in 1..Len(hist) : Count(begun, i) <= (IF hist[i].k = "ann" THEN 1 ELSE 0)
            /\ Quiet => \A i \in 1..Len(hist) : Replies(i) = 1 /\ hist[i].k = "ann" => Count(begun, i) = 1
(* C05, C02: a query for each node learnt, from an answer to an own query, and for no other *)
AskedOnce == /\ \A n \in table : Count(asked, n) = 1 \/ (Count(asked, n) = 0 /\ \E p \in Workers : w[p].pc = "ask" /\ Head(w[p].ns) = n)
             /\ \A n \in Range(asked) \ {"boot"} : n \in table /\ \E i \in 1..Len(hist) : hist[i].k = "resp" /\ hist[i].tx # 99 /\ n \in Range(hist[i].ns)
             /\ Cardinality(table) <= Cap
(* C03: a query's handler runs for one response *)
HandledOnce == \A t \in Range(handled) : Count(handled, t) = 1
(* C02, C06: nothing stops it *)
Live == \A i \in 1..MaxIn : /\ (Len(hist) >= i /\ Wants(i)) ~> (Replies(i) = 1)
                            /\ (Len(hist) >= i /\ hist[i].k = "ann") ~> (Count(begun, i) = 1)

(* histories for replay: what is sent, each handled before the next *)
PrintHist == (Len(hist) = MaxIn /\ Quiet) => PrintT(<<"BEH", ToJson([h |-> hist, q |-> asked])>>)
GenNext == (Quiet /\ In) \/ (~Quiet /\ Next /\ UNCHANGED hist)
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
