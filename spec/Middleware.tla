----------------------------- MODULE Middleware -----------------------------
(* Every chain of MaxN functions with programs of up to MaxLen steps.         *)
EXTENDS MiddlewareOps, FiniteSets, TLC, Json
CONSTANTS MaxN, MaxLen
Programs == UNION {[1..k -> {"N", "W"}] : k \in 0..MaxLen}
VARIABLES prog, m, pc, resp, log
vars == <<prog, m, pc, resp, log>>
Init == /\ \E n \in 1..MaxN : /\ prog \in [1..n -> Programs]
                              /\ m = Start(n) /\ pc = [i \in 1..n |-> 1]
        /\ resp = <<0, 0>> /\ log = <<>>
I == Top(m).i
DoEnter == /\ CanEnter(m) /\ m' = Enter(m) /\ log' = Append(log, <<"enter", m.next>>) /\ UNCHANGED <<prog, pc, resp>>
Step(op) == m.stack # <<>> /\ I > 0 /\ ~Top(m).in /\ pc[I] <= Len(prog[I]) /\ prog[I][pc[I]] = op /\ pc' = [pc EXCEPT ![I] = @ + 1]
DoPass == Step("N") /\ m' = Pass(m) /\ log' = Append(log, <<"pass", I>>) /\ UNCHANGED <<prog, resp>>
DoWrite == Step("W") /\ resp' = <<I, pc[I]>> /\ log' = Append(log, <<"write", I>>) /\ UNCHANGED <<prog, m>>
DoBack == /\ m.stack # <<>> /\ CanBack(m, I) /\ m' = (IF I = 0 THEN Leave(m) ELSE Back(m))
          /\ log' = IF I = 0 THEN log ELSE Append(log, <<"back", I>>)
          /\ UNCHANGED <<prog, pc, resp>>
DoLeave == /\ m.stack # <<>> /\ I > 0 /\ CanLeave(m, I) /\ pc[I] > Len(prog[I])
           /\ m' = Leave(m) /\ log' = Append(log, <<"leave", I>>) /\ UNCHANGED <<prog, pc, resp>>
Next == DoEnter \/ DoPass \/ DoWrite \/ DoBack \/ DoLeave
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == m.stack = <<>>
Pos(ev, i) == CHOOSE k \in DOMAIN log : log[k] = <<ev, i>>
Has(ev, i) == \E k \in DOMAIN log : log[k] = <<ev, i>>
Once == \A i \in 1..m.n : Cardinality({k \in DOMAIN log : log[k] = <<"enter", i>>}) = IF Over THEN 1 ELSE IF i < m.next THEN 1 ELSE 0
Order == \A i, j \in 1..m.n : (i < j /\ Has("enter", j)) => Pos("enter", i) < Pos("enter", j)
(* what passed control on continues after everything later is over; so the ends come in reverse order *)
Onion == \A i, j \in 1..m.n : (i < j /\ Has("back", i)) =>
            (Has("leave", j) /\ \A k \in DOMAIN log : log[k] = <<"back", i>> => Pos("leave", j) < k)
Reverse == \A i, j \in 1..m.n : (i < j /\ Over /\ Has("pass", i)) => Pos("leave", j) < Pos("leave", i)
LastWins == Over => (IF \E k \in DOMAIN log : log[k][1] = "write"
                     THEN LET last == CHOOSE k \in DOMAIN log : /\ log[k][1] = "write"
                                                                 /\ \A j \in DOMAIN log : log[j][1] = "write" => j <= k
                          IN resp[1] = log[last][2]
                     ELSE resp = <<0, 0>>)
Ends == <>Over
PrintBeh == ~Over \/ PrintT(<<"BEH", ToJson(prog)>>)
=============================================================================
