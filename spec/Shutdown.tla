------------------------------ MODULE Shutdown ------------------------------
(* misc/shutdown.go: the process waits for a termination signal or for        *)
(* cancellation, starts every registered cleanup, and waits for all of them   *)
(* or for the timeout.                                                        *)
(* Reg: how cleanups are registered.  "before": all are there from the start;  *)
(* "any": one after the other, at any time, by any number of callers;          *)
(* "copy": as the latter, but each caller adds to the list it read before (a   *)
(* design known to be wrong).                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Sources, EnvQuiet, Reg     \* number of cleanups; {"cancel", "signal"}
Cleans == 1..K
VARIABLES waiting,  \* "no", "yes", "returned"
          fired,    \* sources that fired
          status, clean, expired, hist,
          list,     \* the registered cleanups
          reg       \* of each cleanup: "no", "calling" (with what was read), "in time" or "late" (the call has returned)
vars == <<waiting, fired, status, clean, expired, hist, list, reg>>
rvars == <<list, reg>>
Init == /\ waiting = "no" /\ fired = {} /\ status = "running" /\ clean = [c \in Cleans |-> "idle"]
        /\ expired = FALSE /\ hist = <<>>
        /\ list = (IF Reg = "before" THEN Cleans ELSE {})
        /\ reg = [c \in Cleans |-> <<IF Reg = "before" THEN "in time" ELSE "no", {}>>]
(* a call to register c *)
Call(c) == /\ reg[c][1] = "no" /\ reg' = [reg EXCEPT ![c] = <<"calling", list>>]
           /\ UNCHANGED <<waiting, fired, status, clean, expired, hist, list>>
Register(c) == /\ reg[c][1] = "calling"
               /\ list' = (IF Reg = "copy" THEN reg[c][2] ELSE list) \union {c}
               /\ reg' = [reg EXCEPT ![c] = <<IF fired = {} THEN "in time" ELSE "late", {}>>]
               /\ UNCHANGED <<waiting, fired, status, clean, expired, hist>>
(* internal *)
Notice == /\ waiting = "yes" /\ fired # {} /\ status = "running" /\ status' = "shutting"
          /\ UNCHANGED <<waiting, fired, clean, expired, hist, list, reg>>
Start(c) == /\ status # "running" /\ c \in list /\ clean[c] = "idle" /\ clean' = [clean EXCEPT ![c] = "running"]
            /\ UNCHANGED <<waiting, fired, status, expired, hist, list, reg>>
Return == /\ status = "shutting" /\ (expired \/ \A c \in list : clean[c] = "done")
          /\ status' = "shutdown" /\ waiting' = "returned" /\ UNCHANGED <<fired, clean, expired, hist, list, reg>>
Quiet == /\ ~(waiting = "yes" /\ fired # {} /\ status = "running")
         /\ ~(status # "running" /\ \E c \in list : clean[c] = "idle")
         /\ ~(status = "shutting" /\ (expired \/ \A c \in list : clean[c] = "done"))
(* environment *)
Env(op) == (EnvQuiet => Quiet) /\ hist' = Append(hist, op)
Wait == /\ Env(<<"wait", 0>>) /\ waiting = "no" /\ waiting' = "yes" /\ UNCHANGED <<fired, status, clean, expired, list, reg>>
Fire(s) == /\ Env(<<s, 0>>) /\ s \notin fired /\ fired' = fired \union {s}
           /\ UNCHANGED <<waiting, status, clean, expired, list, reg>>
Finish(c) == /\ Env(<<"finish", c>>) /\ clean[c] = "running" /\ clean' = [clean EXCEPT ![c] = "done"]
             /\ UNCHANGED <<waiting, fired, status, expired, list, reg>>
Expire == /\ Env(<<"expire", 0>>) /\ status = "shutting" /\ ~expired /\ expired' = TRUE
          /\ UNCHANGED <<waiting, fired, status, clean, list, reg>>
Next == Notice \/ Return \/ Wait \/ Expire \/ (\E c \in Cleans : Start(c) \/ Finish(c) \/ Call(c) \/ Register(c)) \/ (\E s \in Sources : Fire(s))
Spec == Init /\ [][Next]_vars
Fair == /\ Spec /\ WF_vars(Notice) /\ WF_vars(Return) /\ WF_vars(Expire) /\ \A c \in Cleans : WF_vars(Start(c))

NotBefore == (\E c \in Cleans : clean[c] # "idle") => (fired # {} /\ waiting # "no")
Truth == /\ status = "running" => \A c \in Cleans : clean[c] = "idle"
         /\ (status = "shutdown") <=> (waiting = "returned")
         /\ waiting = "returned" => (expired \/ \A c \in Cleans : reg[c][1] = "in time" => clean[c] = "done")
AllAtOnce == (Quiet /\ status # "running") => \A c \in list : clean[c] # "idle"   \* none waits for another
(* it never hangs: once fired, the wait returns even if no cleanup ever does *)
Returns == (waiting = "yes" /\ fired # {}) ~> (waiting = "returned")
AllStart == (waiting = "returned") ~> (\A c \in Cleans : reg[c][1] = "in time" => clean[c] # "idle")
Kept == \A c \in Cleans : reg[c][1] = "in time" => c \in list    \* no registration loses another

View == <<waiting, fired, status, clean, expired, list, reg>>
GenView == vars
PrintBeh == (hist = <<>> \/ ~Quiet) \/ PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
