-------------------------------- MODULE Fetch --------------------------------
(* dht/peerwire: one metadata fetch.  The peer sends any sequence of messages *)
(* of an alphabet; the client reads them one by one, requests the pieces on   *)
(* an extended handshake, keeps what arrives and compares the hash at last.   *)
(* Clock counts down the client's patience with one connection.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N,        \* pieces of the true metadata
          MaxMsgs, Clock0
VARIABLES wire, script, gone,   \* sent and not read; all sent; the peer closed
          st,                   \* "hs", "ext", "done"
          n, got, reqs,         \* pieces expected; piece -> content; requests sent
          size,                 \* as announced last: "none", "true", "other"
          clock, res
vars == <<wire, script, gone, st, n, got, reqs, size, clock, res>>

Good == {<<"g", i>> : i \in 0..N}         \* right data of piece i; N is out of range
Bad == {<<"b", i>> : i \in 0..(N - 1)}    \* wrong data for piece i
Plain == {"H", "h", "k", "o", "X", "U", "Y", "Z", "r", "m"}
(* H handshake, h unacceptable one, k keep-alive, o other, X extended         *)
(* handshake, U a later one without size, Y one with another size, Z one      *)
(* without any use, r reject, m malformed                                     *)
Msgs == {<<p>> : p \in Plain} \union Good \union Bad
Init == /\ wire = <<>> /\ script = <<>> /\ gone = FALSE /\ st = "hs" /\ n = 0 /\ got = <<>> /\ reqs = {}
        /\ size = "none" /\ clock = Clock0 /\ res = "none"
Put(m) == /\ ~gone /\ Len(script) < MaxMsgs /\ wire' = Append(wire, m) /\ script' = Append(script, m)
          /\ UNCHANGED <<gone, st, n, got, reqs, size, clock, res>>
PeerSend == \E m \in Msgs : Put(m)
PeerClose == ~gone /\ gone' = TRUE /\ UNCHANGED <<wire, script, st, n, got, reqs, size, clock, res>>
End(r) == /\ st' = "done" /\ res' = r /\ UNCHANGED <<n, got, reqs, size>>
Whole(g, k) == k > 0 /\ \A i \in 0..(k - 1) : g[i] # "-"
Right(g, k) == k = N /\ \A i \in 0..(k - 1) : g[i] = "g"
Start(k, s) == /\ n' = k /\ got' = [i \in 0..(k - 1) |-> "-"] /\ reqs' = reqs \union (0..(k - 1)) /\ size' = s
               /\ UNCHANGED <<st, res>>
Read == /\ st # "done" /\ wire # <<>> /\ wire' = Tail(wire)
        /\ LET m == Head(wire)[1] IN
           IF st = "hs" THEN IF m = "H" THEN st' = "ext" /\ UNCHANGED <<n, got, reqs, size, res>> ELSE End("err")
           ELSE CASE m \in {"k", "o", "r"} -> UNCHANGED <<st, n, got, reqs, size, res>>
                  [] m = "X" -> Start(N, "true")
                  [] m = "Y" -> Start(N + 1, "other")
                  [] m = "U" -> IF n > 0 THEN UNCHANGED <<st, n, got, reqs, size, res>> ELSE End("err")
                  [] m \in {"Z", "m", "H", "h"} -> End("err")
                  [] m \in {"g", "b"} ->
                       LET i == Head(wire)[2] IN
                       IF i >= n THEN End("err")
                       ELSE LET g == [got EXCEPT ![i] = m] IN
                            /\ got' = g /\ UNCHANGED <<n, reqs, size>>
                            /\ IF Whole(g, n) THEN st' = "done" /\ res' = (IF Right(g, n) THEN "ok" ELSE "err")
                               ELSE UNCHANGED <<st, res>>
        /\ UNCHANGED <<script, gone, clock>>
Eof == /\ st # "done" /\ wire = <<>> /\ gone /\ End("err") /\ UNCHANGED <<wire, script, gone, clock>>
(* time passes only while there is nothing to read: the client is quick       *)
Tick == /\ st # "done" /\ wire = <<>> /\ clock > 0 /\ clock' = clock - 1
        /\ UNCHANGED <<wire, script, gone, st, n, got, reqs, size, res>>
Expire == /\ st # "done" /\ clock = 0 /\ End("err") /\ UNCHANGED <<wire, script, gone, clock>>
Next == PeerSend \/ PeerClose \/ Read \/ Eof \/ Tick \/ Expire
Spec == Init /\ [][Next]_vars /\ WF_vars(Read) /\ WF_vars(Eof) /\ WF_vars(Tick) /\ WF_vars(Expire)

(* C08 *)
Sound == res = "ok" => Right(got, n)
(* C09: the peer kept to the protocol and sent every requested piece *)
XAt == {i \in 1..Len(script) : script[i] = <<"X">>}
LastX == CHOOSE i \in XAt : \A j \in XAt : j <= i
Follows == /\ Len(script) > 0 /\ script[1] = <<"H">> /\ XAt # {} /\ ~gone
           /\ \A i \in 2..Len(script) :
                \/ script[i][1] \in {"k", "o", "X"}
                \/ script[i][1] = "U" /\ \E j \in XAt : j < i
                \/ script[i] \in Good /\ script[i][2] < N /\ \E j \in XAt : j < i
           /\ \A i \in 0..(N - 1) : \E j \in LastX..Len(script) : script[j] = <<"g", i>>
Succeeds == (Follows /\ clock > 0 /\ (st = "done" \/ wire = <<>>)) => res = "ok"
(* C10 *)
Terminates == <>(st = "done")
Asked == \A i \in reqs : i <= N
(* generation: peers' scripts only *)
Proto == \A i \in 1..Len(script) :
           IF i = 1 THEN script[i] = <<"H">>
           ELSE \/ script[i][1] \in {"k", "o", "X"}
                \/ /\ \E j \in XAt : j < i
                   /\ script[i][1] = "U" \/ (script[i] \in Good /\ script[i][2] < N)
GenSpec == Init /\ [][PeerSend]_vars
PrintAll == script = <<>> \/ PrintT(<<"BEH", ToJson(script)>>)
PrintHonest == Proto /\ (~Follows \/ PrintT(<<"BEH", ToJson(script)>>))
=============================================================================
