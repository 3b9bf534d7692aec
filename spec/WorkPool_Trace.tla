--------------------------- MODULE WorkPool_Trace ---------------------------
(* Executions of the real work pool.                                          *)
(*                                                                            *)
(* Stepped runs (virtual time): the driver does one step (submit s, finish t, *)
(* shutdown k timeout, cancel, both k timeout, twin k timeout, sleep ms),     *)
(* waits until every goroutine is blocked, and records obs: submissions       *)
(* returned and refused, tasks started (in order) and done, shutdown calls    *)
(* returned (with the time) or panicked, status, time; end adds how many      *)
(* goroutines of the pool are left.                                           *)
(*                                                                            *)
(* Racing runs: inv/ret/refused of submissions, start/stop of tasks, sinv/    *)
(* sret/spanic of shutdown calls, in the order of a global log; begun when    *)
(* all shutdown calls have returned; allret when all submissions and tasks    *)
(* should be over; rend with what is left behind.                             *)
EXTENDS TraceLib
VARIABLES called,   \* submissions made
          returned, refused, started, done,
          grp,      \* task -> how many were accepted before it (as observed)
          begun,    \* "no", "call" (an effective shutdown call), "other" (cancellation or several at once)
          late,     \* submissions made after shutdown began
          calls,    \* shutdown calls: k -> [t0, due, eff, mate]; mate: made together with that one
          drainT,   \* time all accepted tasks were done, after shutdown began (-1 not yet)
          gone,     \* shutdown calls that have returned
          now,
          open, invs, rets  \* racing runs
tvars == <<tid, l, called, returned, refused, started, done, grp, begun, late, calls, drainT, gone, now, open, invs, rets>>
N == Cfg.n
steady == <<returned, refused, started, done, grp, drainT, gone, open, invs, rets>>

Submit == /\ Is("submit") /\ called' = called \union {Ev.s}
          /\ late' = IF begun = "no" THEN late ELSE late \union {Ev.s}
          /\ UNCHANGED <<begun, calls, now>> /\ UNCHANGED steady
Finish == Is("finish") /\ UNCHANGED <<called, late, begun, calls, now>> /\ UNCHANGED steady
AddCalls(ks, eff, paired) ==
  [k \in DOMAIN calls \union ks |->
     IF k \in ks THEN [t0 |-> now, due |-> now + Ev.timeout, eff |-> eff,
                       mate |-> IF paired THEN CHOOSE j \in ks : j # k ELSE 0 - 1] ELSE calls[k]]
Shutdown == /\ Is("shutdown")
            /\ calls' = AddCalls({Ev.k}, begun = "no", FALSE)
            /\ begun' = IF begun = "no" THEN "call" ELSE begun
            /\ UNCHANGED <<called, late, now>> /\ UNCHANGED steady
Cancel == /\ Is("cancel") /\ begun' = IF begun = "no" THEN "other" ELSE begun
          /\ UNCHANGED <<called, late, calls, now>> /\ UNCHANGED steady
Both == /\ Is("both") /\ begun' = IF begun = "no" THEN "other" ELSE begun
        /\ calls' = AddCalls({Ev.k}, FALSE, FALSE)
        /\ UNCHANGED <<called, late, now>> /\ UNCHANGED steady
Twin == /\ Is("twin") /\ begun' = IF begun = "no" THEN "other" ELSE begun
        /\ calls' = AddCalls({Ev.k, Ev.k + 1}, FALSE, begun = "no")
        /\ UNCHANGED <<called, late, now>> /\ UNCHANGED steady
Sleep == /\ Is("sleep") /\ now' = now + Ev.ms
         /\ UNCHANGED <<called, late, begun, calls>> /\ UNCHANGED steady

(* what may be observed once everything has come to rest *)
C14ok(R, S, D, g) ==
  LET SS   == ToSet(S)
      run  == SS \ D
      wait == R \ SS
      new  == SS \ ToSet(started)
      (* the least number of tasks accepted before one that still waits *)
      least == CHOOSE m \in {g[u] : u \in wait} : \A u \in wait : g[u] >= m
  IN
  /\ Cardinality(SS) = Len(S)                            \* executed at most once
  /\ SS \subseteq R                                      \* only accepted tasks
  /\ Len(S) >= Len(started) /\ SubSeq(S, 1, Len(started)) = started
  /\ Cardinality(run) <= N
  /\ wait # {} => \A t \in new : least >= g[t]           \* a prefix of the submission order
  /\ Cardinality(wait) <= N                       \* beyond that, submitters are held back
  /\ begun = "no" =>
       /\ Cardinality(run) < N => wait = {}              \* no task waits while a worker is idle
       /\ called # R => (Cardinality(run) = N /\ Cardinality(wait) >= N)
C15ok(R, F, S, D, newDrain) ==
  LET run == ToSet(S) \ D IN
  /\ begun = "no" => (F = {} /\ Ev.status = "running")
  /\ begun # "no" =>
       /\ late \subseteq F /\ F \cap ToSet(S) = {} /\ F \cap R = {} /\ F \subseteq late
       /\ NoDup(S)
       /\ Cardinality(run) < N => R \subseteq ToSet(S)   \* accepted tasks are still executed
       /\ \A k \in DOMAIN calls :
            LET c == calls[k]
                at == {x \in ToSet(Ev.shut) : x[1] = k}
                end == IF newDrain >= 0 /\ newDrain <= c.due
                       THEN (IF newDrain > c.t0 THEN newDrain ELSE c.t0) ELSE c.due
            IN /\ now >= end => at # {}
               /\ Cardinality(at) <= 1
               /\ c.eff => \A x \in at : x[2] = end
               /\ \A x \in at : x[2] <= end
               (* of two calls made together one takes effect *)
               /\ (c.mate >= 0 /\ at # {}) =>
                    LET both == {x \in ToSet(Ev.shut) : x[1] \in {k, c.mate}} IN
                    Cardinality(both) = 2 => \E x \in both : x[2] = end
       /\ IF newDrain >= 0 \/ \E k \in DOMAIN calls : calls[k].eff /\ now >= calls[k].due
          THEN Ev.status = "shutdown"
          ELSE IF begun = "call" THEN Ev.status = "shutting" ELSE Ev.status \in {"shutting", "shutdown"}
  /\ Ev.panicked = <<>>
Obs == /\ Is("obs")
       /\ LET R == ToSet(Ev.returned)  F == ToSet(Ev.refused)  S == Ev.started  D == ToSet(Ev.done)
              g == [t \in R |-> IF t \in returned THEN grp[t] ELSE Cardinality(returned)]
              nd == IF drainT >= 0 THEN drainT ELSE IF begun # "no" /\ R \subseteq D THEN now ELSE 0 - 1
          IN /\ On("C14") => C14ok(R, S, D, g)
             /\ On("C15") => C15ok(R, F, S, D, nd)
             /\ returned' = R /\ refused' = F /\ started' = S /\ done' = D /\ grp' = g /\ drainT' = nd
       /\ UNCHANGED <<called, late, begun, calls, gone, now, open, invs, rets>>
End == /\ Is("end")
       /\ On("C15") => Ev.left = 0
       /\ On("C14") => returned \subseteq done
       /\ UNCHANGED <<called, late, begun, calls, now>> /\ UNCHANGED steady

(* racing runs *)
RInv == /\ Is("inv") /\ invs' = [t \in DOMAIN invs \union {Ev.s} |-> IF t = Ev.s THEN l ELSE invs[t]]
        /\ UNCHANGED <<called, late, begun, calls, now, returned, refused, started, done, grp, drainT, gone, open, rets>>
RRet == /\ Is("ret") /\ rets' = [t \in DOMAIN rets \union {Ev.s} |-> IF t = Ev.s THEN l ELSE rets[t]]
        /\ UNCHANGED <<called, late, begun, calls, now, returned, refused, started, done, grp, drainT, gone, open, invs>>
RStart == /\ Is("start")
          /\ On("C14") =>
               /\ Ev.s \in DOMAIN invs /\ Ev.s \notin ToSet(started)
               /\ Cardinality(open) < N
               (* submitted entirely before it and not seen starting: at most what the other workers have in hand *)
               /\ Cardinality({u \in DOMAIN rets : rets[u] < invs[Ev.s] /\ u \notin ToSet(started)}) <= N - 1
          /\ started' = Append(started, Ev.s) /\ open' = open \union {Ev.s}
          /\ UNCHANGED <<called, late, begun, calls, now, returned, refused, done, grp, drainT, gone, invs, rets>>
RStop == /\ Is("stop") /\ open' = open \ {Ev.s} /\ done' = done \union {Ev.s}
         /\ UNCHANGED <<called, late, begun, calls, now, returned, refused, started, grp, drainT, gone, invs, rets>>
RRefused == /\ Is("refused")
            /\ On("C14") => Ev.s > 10000          \* only what was submitted after shutdown began
            /\ refused' = refused \union {Ev.s}
            /\ UNCHANGED <<called, late, begun, calls, now, returned, started, done, grp, drainT, gone, open, invs, rets>>
SInv == Is("sinv") /\ UNCHANGED <<called, late, begun, calls, now>> /\ UNCHANGED steady
(* calls with a timeout that cannot expire: the one that takes effect returns when everything is done *)
SRet == /\ Is("sret") /\ (On("C15") => Ev.status \in {"shutting", "shutdown"})
        /\ drainT' = IF done = DOMAIN rets /\ Ev.status = "shutdown" THEN 1 ELSE drainT
        /\ UNCHANGED <<called, late, begun, calls, now, returned, refused, started, done, grp, gone, open, invs, rets>>
SPanic == Is("spanic") /\ ~On("C15") /\ UNCHANGED <<called, late, begun, calls, now>> /\ UNCHANGED steady
Begun == /\ Is("begun") /\ begun' = "call"
         /\ (On("C15") /\ Cfg.strict) => drainT = 1
         /\ UNCHANGED <<called, late, calls, now>> /\ UNCHANGED steady
RAll == /\ Is("allret")
        /\ On("C14") => \A t \in DOMAIN invs : t <= 10000 => t \in done
        /\ On("C14") => (open = {} /\ \A t \in DOMAIN invs : t <= 10000 => t \in DOMAIN rets)
        /\ On("C15") => \A t \in DOMAIN invs : IF t <= 10000 THEN t \in done ELSE t \in refused \ ToSet(started)
        /\ UNCHANGED <<called, late, begun, calls, now>> /\ UNCHANGED steady
(* what the pool says of itself only ever moves on *)
RStatus == /\ Is("status")
           /\ On("C15") => (Ev.is # "running" /\ "shutdown" \notin gone)
           /\ gone' = gone \union {Ev.is}
           /\ UNCHANGED <<called, late, begun, calls, now, returned, refused, started, done, grp, drainT, open, invs, rets>>
REnd == /\ Is("rend") /\ (On("C15") => (Ev.left = 0 /\ Ev.status = "shutdown"))
        /\ UNCHANGED <<called, late, begun, calls, now>> /\ UNCHANGED steady

TraceInit == /\ TInit /\ called = {} /\ returned = {} /\ refused = {} /\ started = <<>> /\ done = {} /\ grp = <<>>
             /\ begun = "no" /\ late = {} /\ calls = <<>> /\ drainT = 0 - 1 /\ gone = {} /\ now = 0
             /\ open = {} /\ invs = <<>> /\ rets = <<>>
TraceNext == Submit \/ Finish \/ Shutdown \/ Cancel \/ Both \/ Twin \/ Sleep \/ Obs \/ End
             \/ RInv \/ RRet \/ RRefused \/ RStart \/ RStop \/ SInv \/ SRet \/ SPanic \/ Begun \/ RAll \/ RStatus \/ REnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
