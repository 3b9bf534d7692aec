--------------------------- MODULE Torrents_Trace ---------------------------
(* Runs of the torrent command.                                               *)
(*   put{name,kind,bytes,maybe}  there is now an entry of this name: a file   *)
(*                       with these bytes, or a directory.  maybe: it is the  *)
(*                       crawler that saves it, from now on or later          *)
(*   list{ok,lines}      the directory is listed; the lines that were printed *)
(*   show{name,ok,lines} one file is                                          *)
(* Names, contents and lines are byte sequences; contents are parsed here.    *)
EXTENDS TraceLib, BencodeOps
VARIABLES dir      \* set of [name, maybe, kind, good, str, first, len, piece]: kind: "dir", or "file";
                   \* good: it holds metadata, with the name first (if str), this length and piece length
vars == <<dir>>
tvars == <<tid, l, vars>>
Of(D, k) == LET X == {p \in D : p[1] = k} IN IF X = {} THEN <<"none">> ELSE (CHOOSE p \in X : TRUE)[2]
kName == <<110,97,109,101>>  kLength == <<108,101,110,103,116,104>>  kPiece == <<112,105,101,99,101,32,108,101,110,103,116,104>>
Num(D, k) == LET v == Of(D, k) IN IF v[1] = "i" THEN v[2] ELSE <<48>>
Nothing(n, m, k) == [name |-> n, maybe |-> m, kind |-> k, good |-> FALSE, str |-> FALSE, first |-> <<>>, len |-> <<>>, piece |-> <<>>]
Read(e) == IF e.kind = "dir" THEN Nothing(e.name, e.maybe, e.kind)
           ELSE LET r == Parse(e.bytes, 1) IN
                IF ~(r.ok /\ r.next = Len(e.bytes) + 1 /\ r.val[1] = "d") THEN Nothing(e.name, e.maybe, e.kind)
                ELSE LET D == r.val[2]
                         nm == Of(D, kName)
                     IN [name |-> e.name, maybe |-> e.maybe, kind |-> e.kind, good |-> TRUE, str |-> nm[1] = "s",
                         first |-> IF nm[1] = "s" THEN nm[2] ELSE <<>>, len |-> Num(D, kLength), piece |-> Num(D, kPiece)]
Put == /\ Is("put")
       /\ \E x \in {Read(Ev)} : dir' = {y \in dir : y.name # Ev.name \/ (Ev.maybe /\ y.kind = "file")} \union {x}
Ext == <<46,116,111,114,114,101,110,116>>    \* .torrent
Listed(x) == x.kind = "file" /\ Len(x.name) >= 8 /\ SubSeq(x.name, Len(x.name) - 7, Len(x.name)) = Ext
Bar == <<124, 124>>
EndsWith(s, w) == Len(s) >= Len(w) /\ SubSeq(s, Len(s) - Len(w) + 1, Len(s)) = w
(* line s is what is to be printed for file x under the name n *)
IsLine(s, x, n) == LET t == Bar \o n \o Bar \o x.len \o Bar \o x.piece
                   IN IF x.str THEN s = x.first \o t ELSE EndsWith(s, t)
(* each line is of one file, each good file has one *)
List == /\ Is("list") /\ UNCHANGED dir
        /\ (On("C26") =>
             LET L == Ev.lines IN
             \E F \in {{x \in dir : Listed(x) /\ x.good}} :
             \E For \in {[x \in F |-> {i \in 1..Len(L) : IsLine(L[i], x, x.name)}]} :
                /\ ((\A x \in dir : Listed(x) => x.good) => Ev.ok)
                /\ \A x \in F : LET A == UNION {For[y] : y \in {z \in F : z.name = x.name}}
                                    must == \E y \in dir : y.name = x.name /\ ~y.maybe
                                IN Cardinality(A) <= 1 /\ (must => Cardinality(A) = 1)
                /\ UNION {For[x] : x \in F} = 1..Len(L))
Show == /\ Is("show") /\ UNCHANGED dir
        /\ (On("C26") =>
             \E x \in {y \in dir : y.name = Ev.name /\ y.kind = "file"} :
               IF x.good THEN Ev.ok /\ Len(Ev.lines) = 1 /\ IsLine(Ev.lines[1], x, Ev.shown) ELSE Ev.lines = <<>> /\ ~Ev.ok)
TraceInit == TInit /\ dir = {}
TraceNext == Put \/ List \/ Show
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
