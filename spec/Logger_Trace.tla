---------------------------- MODULE Logger_Trace ----------------------------
(* What the real loggers printed.  get, prefix, set, file and say are         *)
(* operations (file: a logger of a file, with its own level for good);        *)
(* a say carries the lines that appeared with its message, in the order of    *)
(* all lines (pos).  A line of no message (stray) is never allowed.  conf is  *)
(* the value of a section of the settings, as one goroutine got it.           *)
EXTENDS TraceLib
VARIABLES poss,    \* levels that may be in force
          next,    \* the level being set, "none" when no set is under way
          open,    \* goroutine -> [at, levels, top] of its call in progress
          known,   \* names asked for
          top      \* position of the last line of a finished call
tvars == <<tid, l, poss, next, open, known, top>>

Levels == <<"DEBUG", "INFO", "WARN", "ERROR", "PANIC", "TRACE">>
Sevs   == <<"Debug", "Info", "Warn", "Error", "Panic", "Trace">>
Rank(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Allowed(sev, v) == Rank(Sevs, sev) >= Rank(Levels, v)

Entry(e) == e.k \o ":" \o e.shown
RECURSIVE Join(_)
Join(es) == IF Len(es) = 1 THEN Entry(es[1]) ELSE Entry(es[1]) \o "|" \o Join(Tail(es))
Orders(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Bodies(c) == LET pre == IF c.p = "" THEN "" ELSE "[" \o c.p \o "]" IN
  IF Len(c.ctx) = 0 THEN {pre \o c.msg}
  ELSE {pre \o c.msg \o ", " \o Join([i \in 1..Len(c.ctx) |-> c.ctx[f[i]]]) : f \in Orders(Len(c.ctx))}

(* a message: printed by one whole line exactly when the level allows it *)
Pairs(es) == {<<es[i].k, es[i].shown>> : i \in DOMAIN es}
InFile(c) ==
  /\ IF Len(c.lines) = 0 THEN ~Allowed(c.sev, c.file)
     ELSE /\ Len(c.lines) = 1 /\ Allowed(c.sev, c.file)
          /\ LET n == c.lines[1] IN
               /\ n.fresh /\ n.name = c.name /\ (c.sev # "Trace" => n.sev = c.sev)
               /\ n.msg \in {(IF c.p = "" THEN x ELSE "[" \o c.p \o "]") \o c.msg : x \in {"", "[]"}}
               /\ Pairs(c.ctx) \subseteq Pairs(n.ctx)
  /\ c.panicked = (c.sev = "Panic")
  /\ (c.e = "call" /\ c.sev = "Panic" /\ Len(c.lines) = 1) => c.now
Said(c, levels, after) ==
  IF c.file # "" THEN InFile(c) ELSE
  /\ IF Len(c.lines) = 0 THEN \E v \in levels : ~Allowed(c.sev, v)
     ELSE /\ Len(c.lines) = 1 /\ \E v \in levels : Allowed(c.sev, v)
          /\ LET n == c.lines[1] IN n.sev = c.sev /\ n.fresh /\ n.pos > after /\ n.body \in Bodies(c)
  /\ c.panicked = (c.sev = "Panic")
  /\ (c.e = "call" /\ c.sev = "Panic" /\ Len(c.lines) = 1) => c.now
Made(c) == SelectSeq(Cfg.made, LAMBDA m : m.name = c.name)
(* the logger of a name is made once, with the level in force *)
Got(c, levels) ==
  Cfg.factory => /\ Len(Made(c)) <= 1
                 /\ (c.name # "dflt" /\ c.name \notin known) => Len(Made(c)) = 1 /\ Made(c)[1].level \in levels
Fine(c, levels, after) == CASE c.op = "say" -> ~Cfg.factory => Said(c, levels, after)
                            [] c.op = "get" -> Got(c, levels)
                            [] OTHER -> TRUE
Known(c) == known' = IF c.op = "get" THEN known \union {c.name} ELSE known
Max(a, b) == IF a > b THEN a ELSE b
Pos(c) == IF c.op = "say" /\ c.file = "" /\ c.lines # <<>> THEN c.lines[1].pos ELSE 0

Call == /\ Is("call")
        /\ (On("C27") => Fine(Ev, poss, top))
        /\ Known(Ev) /\ poss' = (IF Ev.op = "set" THEN {Ev.v} ELSE poss)
        /\ top' = Max(top, Pos(Ev)) /\ UNCHANGED <<next, open>>
Inv == /\ Is("inv")
       /\ LET now == IF Ev.op = "set" THEN poss \union {Ev.v} ELSE poss IN
            /\ poss' = now
            /\ open' = [g \in DOMAIN open \union {Ev.g} |->
                          IF g = Ev.g THEN [at |-> l, levels |-> now, top |-> top]
                          ELSE [open[g] EXCEPT !.levels = @ \union now]]
       /\ next' = (IF Ev.op = "set" THEN Ev.v ELSE next) /\ UNCHANGED <<known, top>>
Ret == /\ Is("ret")
       /\ LET o == open[Ev.g] c == Tr[o.at] IN
            /\ On("C27") => Fine(c, o.levels, o.top)
            /\ Known(c) /\ top' = Max(top, Pos(c))
            /\ IF c.op = "set" THEN poss' = {next} /\ next' = "none" ELSE UNCHANGED <<poss, next>>
       /\ open' = [g \in DOMAIN open \ {Ev.g} |-> open[g]]
Conf == /\ Is("conf")
        /\ (On("C27") => Ev.val = Cfg.conf[Ev.key])
        /\ UNCHANGED <<poss, next, open, known, top>>

TraceInit == TInit /\ poss = (IF Cfg.first THEN {"INFO"} ELSE ToSet(Levels)) /\ next = "none" /\ open = <<>> /\ known = {} /\ top = 0
TraceNext == Call \/ Inv \/ Ret \/ Conf
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
