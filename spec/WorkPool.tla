------------------------------ MODULE WorkPool ------------------------------
(* misc/workpool.go: N workers, a queue of capacity N, a broadcast channel    *)
(* closed at shutdown.  One action per step the goroutines take; the          *)
(* environment submits, lets tasks finish, shuts down, cancels, and lets time *)
(* pass.  EnvQuiet lets the environment act only when nothing internal can    *)
(* happen (for generating test scripts); FALSE explores all interleavings.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N, T, MaxOps, EnvQuiet
Tasks == 1..T
Workers == 1..N
VARIABLES sub,      \* task -> "no", "calling", "accepted", "refused"
          queue, worker, \* worker -> 0 idle, t running, -1 gone
          started,  \* tasks in the order they were taken
          order,    \* tasks in the order they were accepted
          done, status, sd, \* sd: "none", "waiting", "drained", "timeout"
          hist
vars == <<sub, queue, worker, started, order, done, status, sd, hist>>
GONE == T + 1

Init == /\ sub = [t \in Tasks |-> "no"] /\ queue = <<>> /\ worker = [i \in Workers |-> 0]
        /\ started = <<>> /\ order = <<>> /\ done = {} /\ status = "running" /\ sd = "none" /\ hist = <<>>

(* internal steps *)
Accept(t) == /\ sub[t] = "calling" /\ Len(queue) < N
             /\ sub' = [sub EXCEPT ![t] = "accepted"] /\ queue' = Append(queue, t) /\ order' = Append(order, t)
             /\ UNCHANGED <<worker, started, done, status, sd, hist>>
Take(i) == /\ worker[i] = 0 /\ queue # <<>>
           /\ worker' = [worker EXCEPT ![i] = Head(queue)] /\ queue' = Tail(queue)
           /\ started' = Append(started, Head(queue))
           /\ UNCHANGED <<sub, order, done, status, sd, hist>>
Leave(i) == /\ worker[i] = 0 /\ status # "running" /\ queue = <<>>
            /\ worker' = [worker EXCEPT ![i] = GONE]
            /\ UNCHANGED <<sub, queue, started, order, done, status, sd, hist>>
Drained == /\ sd = "waiting" /\ \A i \in Workers : worker[i] = GONE
           /\ sd' = "drained" /\ status' = "shutdown"
           /\ UNCHANGED <<sub, queue, worker, started, order, done, hist>>
Internal == (\E t \in Tasks : Accept(t)) \/ (\E i \in Workers : Take(i) \/ Leave(i)) \/ Drained
CanAccept == Len(queue) < N /\ \E t \in Tasks : sub[t] = "calling"
CanTake   == queue # <<>> /\ \E i \in Workers : worker[i] = 0
CanLeave  == status # "running" /\ queue = <<>> /\ \E i \in Workers : worker[i] = 0
Quiet == ~CanAccept /\ ~CanTake /\ ~CanLeave /\ ~(sd = "waiting" /\ \A i \in Workers : worker[i] = GONE)

(* the environment *)
Env(op) == /\ Len(hist) < MaxOps /\ (EnvQuiet => Quiet) /\ hist' = Append(hist, op)
Fresh(t) == sub[t] = "no" /\ (IF t = 1 THEN TRUE ELSE sub[t - 1] # "no")      \* symmetry: in number order
Submit(t) == /\ Env(<<"submit", t>>) /\ Fresh(t)
             /\ sub' = [sub EXCEPT ![t] = IF status = "running" THEN "calling" ELSE "refused"]
             /\ UNCHANGED <<queue, worker, started, order, done, status, sd>>
Finish(i) == /\ Env(<<"finish", worker[i]>>) /\ worker[i] \in Tasks
             /\ done' = done \union {worker[i]} /\ worker' = [worker EXCEPT ![i] = 0]
             /\ UNCHANGED <<sub, queue, started, order, status, sd>>
(* submissions racing a shutdown are left out: their fate is not specified *)
Begin(op) == /\ Env(op) /\ status = "running" /\ \A t \in Tasks : sub[t] # "calling"
             /\ status' = "shutting" /\ sd' = "waiting"
             /\ UNCHANGED <<sub, queue, worker, started, order, done>>
Shutdown == Begin(<<"shutdown", 0>>)
Cancel   == Begin(<<"cancel", 0>>)
Timeout  == /\ Env(<<"sleep", 0>>) /\ sd = "waiting" /\ sd' = "timeout" /\ status' = "shutdown"
            /\ UNCHANGED <<sub, queue, worker, started, order, done>>
Again    == /\ Env(<<"again", 0>>) /\ status # "running" /\ \A i \in DOMAIN hist : hist[i][1] # "again"
            /\ UNCHANGED <<sub, queue, worker, started, order, done, status, sd>>

Next == \/ \E t \in Tasks : Accept(t) \/ Submit(t)
        \/ \E i \in Workers : Take(i) \/ Leave(i) \/ Finish(i)
        \/ Drained \/ Shutdown \/ Cancel \/ Timeout \/ Again
Spec == Init /\ [][Next]_vars
(* tasks finish; MaxOps = 2T + 3 is no bound at all *)
Fair == /\ Spec
        /\ \A t \in Tasks : WF_vars(Accept(t))
        /\ \A i \in Workers : WF_vars(Take(i)) /\ WF_vars(Leave(i)) /\ WF_vars(Finish(i))
        /\ WF_vars(Drained)

Running == {worker[i] : i \in Workers} \cap Tasks
(* C14 *)
Once      == /\ \A i, j \in DOMAIN started : i # j => started[i] # started[j]
             /\ \A i, j \in Workers : (i # j /\ worker[i] \in Tasks) => worker[i] # worker[j]
InOrder   == started = SubSeq(order, 1, Len(started))
NoIdling  == (Quiet /\ Cardinality(Running) < N) => queue = <<>>
HeldBack  == /\ Len(queue) <= N
             /\ (Quiet /\ \E t \in Tasks : sub[t] = "calling")
                  => (Cardinality(Running) = N /\ Len(queue) = N)
NoneLost  == \A t \in Tasks : sub[t] = "accepted" => (t \in done \/ t \in Running \/ \E i \in DOMAIN queue : queue[i] = t)
(* C15 *)
RefusedNeverRun == \A i \in DOMAIN started : sub[started[i]] = "accepted"
DrainedMeansDone == sd = "drained" => \A t \in Tasks : sub[t] = "accepted" => t \in done
NobodyLeft == (Quiet /\ status # "running" /\ Running = {} /\ \A t \in Tasks : sub[t] # "calling")
                => \A i \in Workers : worker[i] = GONE
ShutReports == sd \in {"drained", "timeout"} <=> status = "shutdown"
(* every accepted task is executed; a shutdown ends *)
AllRun == \A t \in Tasks : (sub[t] = "accepted") ~> (t \in {started[i] : i \in DOMAIN started})
Ends   == (sd = "waiting") ~> (sd # "waiting")

View == <<sub, queue, worker, started, order, done, status, sd, Len(hist)>>
GenView == <<sub, queue, {worker[i] : i \in Workers}, Len(started), status, sd>>
PrintBeh == (hist = <<>> \/ ~Quiet) \/ PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
