------------------------------ MODULE Udp_Trace ------------------------------
(* The real endpoint.  in{from,d} before a peer sends to it;  take{from,d}    *)
(* from its channel;  empty: nothing came for a while;  held{i,d,from}:       *)
(* content now of the i-th datagram taken;  out{to,d,ok,after} a send by the     *)
(* endpoint;  arrive{at,from,d} at a peer;  quiet;  closing before / closed after the    *)
(* close calls;  rebind{ok};  harm: a close call panicked.                    *)
(* A datagram in is [d, opt]: opt if it is larger than the endpoint promises  *)
(* to deliver.  Cfg.serial: one datagram was sent after the other.               *)
EXTENDS TraceLib
VARIABLES pend,     \* datagrams on their way: sequence of [from, d, opt]
          got,      \* what was taken
          wire,     \* datagrams sent by the endpoint: sequence of [to, d]
          open      \* "yes", "closing", "no"
tvars == <<tid, l, pend, got, wire, open>>
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
In == /\ Is("in") /\ pend' = IF open = "no" THEN pend ELSE Append(pend, [from |-> Ev.from, d |-> Ev.d, opt |-> Ev.opt \/ open # "yes"])
      /\ UNCHANGED <<got, wire, open>>
(* taking the i-th passes over the earlier ones of the same sender (of all, in serial runs) for good *)
Take == /\ Is("take")
        /\ \E i \in 1..Len(pend) :
             /\ pend[i].from = Ev.from
             /\ pend[i].d = Ev.d \/ (pend[i].opt /\ pend[i].d \notin {pend[j].d : j \in 1..Len(pend) \ {i}} /\ Ev.short)
             /\ \A j \in 1..(i - 1) : (Cfg.serial \/ pend[j].from = Ev.from) => (pend[j].opt \/ open # "yes")
             /\ pend' = LET gone == {j \in 1..(i - 1) : Cfg.serial \/ pend[j].from = Ev.from} \union {i}
                            RECURSIVE Keep(_)
                            Keep(k) == IF k > Len(pend) THEN <<>> ELSE IF k \in gone THEN Keep(k + 1) ELSE <<pend[k]>> \o Keep(k + 1)
                        IN Keep(1)
        /\ got' = Append(got, <<Ev.from, Ev.d>>) /\ UNCHANGED <<wire, open>>
Empty == /\ Is("empty") /\ (open = "yes" => \A i \in 1..Len(pend) : pend[i].opt) /\ UNCHANGED <<pend, got, wire, open>>
Held == /\ Is("held") /\ Ev.i \in 1..Len(got) /\ got[Ev.i] = <<Ev.from, Ev.d>> /\ UNCHANGED <<pend, got, wire, open>>
Out == /\ Is("out")
       /\ (open = "yes" => Ev.ok = Ev.can)
       /\ (Ev.after => ~Ev.ok)
       /\ wire' = IF Ev.ok THEN Append(wire, [to |-> Ev.to, d |-> Ev.d]) ELSE wire
       /\ UNCHANGED <<pend, got, open>>
Arrive == /\ Is("arrive") /\ Ev.from
          /\ \E i \in 1..Len(wire) : wire[i].to = Ev.at /\ wire[i].d = Ev.d /\ wire' = Drop(wire, i)
          /\ UNCHANGED <<pend, got, open>>
Quiet == Is("quiet") /\ wire = <<>> /\ UNCHANGED <<pend, got, wire, open>>
Closing == Is("closing") /\ open' = "closing" /\ UNCHANGED <<pend, got, wire>>
Closed == Is("closed") /\ open' = "no" /\ UNCHANGED <<pend, got, wire>>
Rebind == Is("rebind") /\ Ev.ok /\ UNCHANGED <<pend, got, wire, open>>
TraceInit == TInit /\ pend = <<>> /\ got = <<>> /\ wire = <<>> /\ open = "yes"
TraceNext == In \/ Take \/ Empty \/ Held \/ Out \/ Arrive \/ Quiet \/ Closing \/ Closed \/ Rebind
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
