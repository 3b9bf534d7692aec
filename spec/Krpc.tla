-------------------------------- MODULE Krpc --------------------------------
(* dht/krpc/server.go: queries sent and responses handled.  A query is first  *)
(* entered in the table of outstanding queries, then sent; answers (copies,   *)
(* unsolicited ones, errors) arrive in any order; W workers handle them: take *)
(* the query out of the table (atomically, or in two steps: Atomic = FALSE),  *)
(* then run its handler.                                                      *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS Queries,   \* each with a transaction id of its own
          Copies,    \* answers the network may deliver per id
          Workers, Atomic, EntryFirst
VARIABLES st,        \* query -> "new", "entered", "sent" (both steps taken: "sent")
          table,     \* outstanding queries
          sent,      \* queries whose datagram is on the wire
          net,       \* answers on their way: <<query, copy, kind>>
          made,      \* how many answers were made for a query
          worker,    \* worker -> idle | <<"got", q>> | <<"found", q>>
          runs, lost \* query -> handler runs; answers found unmatched while their query awaited one
vars == <<st, table, sent, net, made, worker, runs, lost>>
Idle == <<"idle">>
Init == /\ st = [q \in Queries |-> "new"] /\ table = {} /\ sent = {} /\ net = {}
        /\ made = [q \in Queries |-> 0] /\ worker = [w \in Workers |-> Idle]
        /\ runs = [q \in Queries |-> 0] /\ lost = {}
Enter(q) == /\ st[q] = (IF EntryFirst THEN "new" ELSE "half") /\ table' = table \union {q}
            /\ st' = [st EXCEPT ![q] = IF EntryFirst THEN "half" ELSE "done"]
            /\ UNCHANGED <<sent, net, made, worker, runs, lost>>
Send(q) == /\ st[q] = (IF EntryFirst THEN "half" ELSE "new") /\ sent' = sent \union {q}
           /\ st' = [st EXCEPT ![q] = IF EntryFirst THEN "done" ELSE "half"]
           /\ UNCHANGED <<table, net, made, worker, runs, lost>>
(* it cannot be encoded, or not be sent: the caller is told, nothing is on the wire *)
Refuse(q) == /\ st[q] \in {"new", "half"} /\ q \notin sent /\ st' = [st EXCEPT ![q] = "failed"]
             /\ UNCHANGED <<table, sent, net, made, worker, runs, lost>>
(* the peer answers what it has received; errors as well *)
Answer(q, k) == /\ q \in sent /\ made[q] < Copies
                /\ net' = net \union {<<q, made[q], k>>} /\ made' = [made EXCEPT ![q] = @ + 1]
                /\ UNCHANGED <<st, table, sent, worker, runs, lost>>
Recv(w, a) == /\ worker[w] = Idle /\ a \in net /\ net' = net \ {a}
              /\ worker' = [worker EXCEPT ![w] = IF a[3] = "r" THEN <<"got", a[1]>> ELSE Idle]
              /\ UNCHANGED <<st, table, sent, made, runs, lost>>
Match(w) == /\ worker[w][1] = "got"
            /\ LET q == worker[w][2] IN
               IF q \in table
               THEN /\ worker' = [worker EXCEPT ![w] = <<"found", q>>] /\ lost' = lost
                    /\ table' = IF Atomic THEN table \ {q} ELSE table
               ELSE /\ worker' = [worker EXCEPT ![w] = Idle] /\ table' = table
                    /\ lost' = IF runs[q] = 0 /\ \A v \in Workers : worker[v] # <<"found", q>> THEN lost \union {q} ELSE lost
            /\ UNCHANGED <<st, sent, net, made, runs>>
Handle(w) == /\ worker[w][1] = "found"
             /\ LET q == worker[w][2] IN
                /\ runs' = [runs EXCEPT ![q] = @ + 1]
                /\ table' = IF Atomic THEN table ELSE table \ {q}
             /\ worker' = [worker EXCEPT ![w] = Idle]
             /\ UNCHANGED <<st, sent, net, made, lost>>
Next == \/ \E q \in Queries : Enter(q) \/ Send(q) \/ Refuse(q) \/ Answer(q, "r") \/ Answer(q, "e")
        \/ \E w \in Workers : (\E a \in net : Recv(w, a)) \/ Match(w) \/ Handle(w)
Spec == Init /\ [][Next]_vars /\ \A w \in Workers : WF_vars(\E a \in net : Recv(w, a)) /\ WF_vars(Match(w)) /\ WF_vars(Handle(w))
AtMostOnce == \A q \in Queries : runs[q] <= 1
NoneLost == lost = {}        \* no answer comes too soon for its query
OnlySent == \A q \in Queries : runs[q] > 0 => q \in sent
Honest == \A q \in Queries :      \* an error means nothing was sent, no error that it was
            /\ (st[q] = "failed" => q \notin sent)
            /\ (st[q] = "done" => q \in sent)
Delivered == \A q \in Queries : (\E a \in net : a[1] = q /\ a[3] = "r") ~> (runs[q] = 1)
=============================================================================
