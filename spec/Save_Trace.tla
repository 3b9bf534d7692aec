----------------------------- MODULE Save_Trace -----------------------------
(* The torrent directory of a running crawler.  Names are info-hashes.        *)
(*   saw{name,whole}    a look at <name>.torrent: whole iff it holds the      *)
(*                      metadata whose SHA-1 is the name                      *)
(*   modified{name}     <name>.torrent was written to under that name, so it  *)
(*                      was not whole at some instant                         *)
(*   obtained{name}     a fetch got all the metadata of name                  *)
(*   begun{name}        a fetch of name begins, and may obtain it             *)
(*   hinder, unhinder   from here on writes may fail; no longer               *)
(*   start, kill        the crawler is started, killed                        *)
(*   removed            the environment removed everything                    *)
(*   damaged{name}      the environment put a damaged file under a name       *)
(*   settled{files}     nothing is under way; the files with final names that *)
(*                      are there, as [name, whole]                           *)
EXTENDS TraceLib
VARIABLES may,      \* names that a fetch may have obtained
          must,     \* names obtained since, with nothing in the way
          there,    \* names whose file was there when last settled, or due
          spoilt,   \* names under which there may still be what the environment put there
          hindered, down
vars == <<may, must, there, spoilt, hindered, down>>
tvars == <<tid, l, vars>>

Start == Is("start") /\ down /\ down' = FALSE /\ UNCHANGED <<may, must, there, spoilt, hindered>>
Kill == Is("kill") /\ ~down /\ down' = TRUE /\ must' = {} /\ UNCHANGED <<may, there, spoilt, hindered>>
Hinder == Is("hinder") /\ hindered' = TRUE /\ must' = {} /\ UNCHANGED <<may, there, spoilt, down>>
Unhinder == Is("unhinder") /\ hindered' = FALSE /\ UNCHANGED <<may, must, there, spoilt, down>>
Begun == Is("begun") /\ may' = may \union {Ev.name} /\ UNCHANGED <<must, there, spoilt, hindered, down>>
Obtained == /\ Is("obtained") /\ must' = IF hindered \/ down THEN must ELSE must \union {Ev.name}
            /\ UNCHANGED <<may, there, spoilt, hindered, down>>
Saw == /\ Is("saw") /\ (On("C07") => ((Ev.whole \/ Ev.name \in spoilt) /\ Ev.name \in may)) /\ UNCHANGED vars
Modified == Is("modified") /\ ~On("C07") /\ UNCHANGED vars
Damaged == Is("damaged") /\ spoilt' = spoilt \union {Ev.name} /\ may' = may \union {Ev.name} /\ UNCHANGED <<must, there, hindered, down>>
Removed == Is("removed") /\ there' = {} /\ must' = {} /\ spoilt' = {} /\ UNCHANGED <<may, hindered, down>>
Settled == /\ Is("settled")
           /\ LET names == {Ev.files[i][1] : i \in 1..Len(Ev.files)} IN
              /\ On("C07") => (/\ \A i \in 1..Len(Ev.files) : Ev.files[i][2] \/ Ev.files[i][1] \in spoilt \ must
                              /\ names \subseteq may
                              /\ must \subseteq names
                              /\ there \subseteq names)
              /\ there' = names
              /\ spoilt' = {n \in spoilt : \E i \in 1..Len(Ev.files) : Ev.files[i][1] = n /\ ~Ev.files[i][2]}
           /\ must' = {} /\ UNCHANGED <<may, hindered, down>>
TraceInit == TInit /\ may = {} /\ must = {} /\ there = {} /\ spoilt = {} /\ hindered = FALSE /\ down = TRUE
TraceNext == Start \/ Kill \/ Hinder \/ Unhinder \/ Begun \/ Obtained \/ Saw \/ Modified \/ Damaged \/ Removed \/ Settled
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
