---------------------------- MODULE Config_Trace ----------------------------
(* Starts of the program in a directory, and edits of ./conf/config.json      *)
(* between them.  Values of sections are texts: canonical JSON.               *)
(*   file{kind,v}         the file is now absent, invalid, or gives the       *)
(*                        sections in v                                       *)
(*   start{ok,eff}        a start: whether it came up, and the settings it    *)
(*                        runs with                                           *)
(*   after{same,kind,v}   the file after it: whether no byte has changed, and *)
(*                        what it says                                        *)
(*   runs{what,want,got}  something that a running crawler shows of a setting *)
(* Cfg: sections, defaults.                                                   *)
EXTENDS TraceLib
VARIABLES file, eff, pend
vars == <<file, eff, pend>>
tvars == <<tid, l, vars>>
File == Is("file") /\ pend = "" /\ file' = [kind |-> Ev.kind, v |-> Ev.v] /\ UNCHANGED <<eff, pend>>
Start == /\ Is("start") /\ pend = ""
         /\ On("C23") => IF file.kind = "invalid" THEN ~Ev.ok
                         ELSE /\ Ev.ok
                              /\ \A i \in 1..Len(Cfg.sections) : LET s == Cfg.sections[i] IN
                                   Ev.eff[s] = IF file.kind = "some" /\ file.v[s] # "missing" THEN file.v[s] ELSE Cfg.defaults[s]
         /\ pend' = "after" /\ UNCHANGED <<file, eff>>
After == /\ Is("after") /\ pend = "after" /\ pend' = ""
         /\ On("C23") => IF file.kind = "absent" THEN Ev.kind = "some" /\ Ev.v = Cfg.defaults ELSE Ev.same
         /\ file' = [kind |-> Ev.kind, v |-> Ev.v] /\ UNCHANGED eff
Runs == Is("runs") /\ (On("C23") => Ev.want = Ev.got) /\ UNCHANGED vars
TraceInit == TInit /\ file = [kind |-> "absent", v |-> Traces[tid].cfg.defaults] /\ eff = 0 /\ pend = ""
TraceNext == File \/ Start \/ After \/ Runs
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
