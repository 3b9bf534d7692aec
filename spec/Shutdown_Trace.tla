--------------------------- MODULE Shutdown_Trace ---------------------------
(* Executions of the real shutdown context.  Times in milliseconds: virtual   *)
(* and exact (Cfg.tol = 0), or real, with up to Cfg.tol of lateness.          *)
(*   new{status}  wait{t,timeout}  fire{t}  cstart{c,t,status}  cend{c,t}     *)
(*   wret{t,status}  peek{status}  over                                       *)
(* Cleanups 0..n-1 were registered before the shutdown began, all others       *)
(* meanwhile or later: those may be started or not.                            *)
EXTENDS TraceLib
VARIABLES waitT, fireT, timeout, startT, endT, retT
tvars == <<tid, l, waitT, fireT, timeout, startT, endT, retT>>
NO == 0 - 1
Max2(a, b) == IF a > b THEN a ELSE b
Begin == IF waitT = NO \/ fireT = NO THEN NO ELSE Max2(waitT, fireT)
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
Status == IF retT # NO THEN "shutdown" ELSE IF Begin # NO THEN "shutting" ELSE "running"
Must == 0..(Cfg.n - 1)
AllEnded == Must \union DOMAIN startT \subseteq DOMAIN endT
LastEnd == IF endT = <<>> THEN Begin ELSE CHOOSE x \in {endT[c] : c \in DOMAIN endT} : \A c \in DOMAIN endT : endT[c] <= x

New == /\ Is("new") /\ Ev.status = "running" /\ UNCHANGED <<waitT, fireT, timeout, startT, endT, retT>>
Wait == /\ Is("wait") /\ waitT' = Ev.t /\ timeout' = Ev.timeout /\ UNCHANGED <<fireT, startT, endT, retT>>
Fire == /\ Is("fire") /\ fireT' = Ev.t /\ UNCHANGED <<waitT, timeout, startT, endT, retT>>
CStart == /\ Is("cstart") /\ Begin # NO
          /\ Ev.t >= Begin /\ (Ev.c \in Must => Ev.t <= Begin + Cfg.tol)     \* all at once, when shutdown begins
          /\ Ev.c \notin DOMAIN startT                                 \* once
          /\ (Ev.c \in Must => retT = NO /\ Ev.status = "shutting")
          /\ startT' = Put(startT, Ev.c, Ev.t) /\ UNCHANGED <<waitT, fireT, timeout, endT, retT>>
CEnd == /\ Is("cend") /\ endT' = Put(endT, Ev.c, Ev.t) /\ UNCHANGED <<waitT, fireT, timeout, startT, retT>>
(* a timeout that is over when the last cleanup ends: either *)
WRet == /\ Is("wret") /\ retT = NO /\ Begin # NO /\ Ev.status = "shutdown"
        /\ Must \subseteq DOMAIN startT
        /\ Ev.t <= Begin + timeout + Cfg.tol
        /\ IF AllEnded THEN Ev.t >= LastEnd /\ Ev.t <= LastEnd + Cfg.tol ELSE Ev.t >= Begin + timeout - Cfg.early
        /\ retT' = Ev.t /\ UNCHANGED <<waitT, fireT, timeout, startT, endT>>
Peek == /\ Is("peek") /\ Ev.status = Status /\ UNCHANGED <<waitT, fireT, timeout, startT, endT, retT>>
Over == /\ Is("over") /\ retT # NO /\ Must \subseteq DOMAIN startT
        /\ UNCHANGED <<waitT, fireT, timeout, startT, endT, retT>>
TraceInit == TInit /\ waitT = NO /\ fireT = NO /\ timeout = 0 /\ startT = <<>> /\ endT = <<>> /\ retT = NO
TraceNext == New \/ Wait \/ Fire \/ CStart \/ CEnd \/ WRet \/ Peek \/ Over
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
