-------------------------------- MODULE Save --------------------------------
(* Saving metadata: several savers of the same info-hash, a write made of N   *)
(* parts any of which may fail, a crash at any point, and a reader that may   *)
(* look at any moment.  A file is the set of its parts that have been         *)
(* written.  Design:                                                          *)
(*   "own"    each saver writes a file of its own and renames it              *)
(*   "shared" the savers use one name for the file aside                      *)
(*   "direct" the final name is created, then written                         *)
(*   "early"  renamed before the last part is written                         *)
(*   "blind"  renamed although a write failed                                 *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Savers, N, Fetches, Design
VARIABLES inodes,   \* inode -> parts present
          next,     \* next inode
          final,    \* inode under the final name, 0 if there is none
          aside,    \* name aside -> inode, 0 if there is none
          s,        \* saver -> [pc, fd, k, failed]
          left,     \* fetches still to come
          due,      \* savers that obtained verified metadata, could write, and have finished
          crashed   \* 0, 1 after the crash, 2 after a restart
vars == <<inodes, next, final, aside, s, left, due, crashed>>
Parts == 1..N
Name(p) == IF Design = "shared" THEN "x" ELSE p
Idle == [pc |-> "idle", fd |-> 0, k |-> 0, failed |-> FALSE]
Init == /\ inodes = [i \in {} |-> {}] /\ next = 1 /\ final = 0 /\ aside = [n \in Savers \union {"x"} |-> 0]
        /\ s = [p \in Savers |-> Idle] /\ left = Fetches /\ due = 0 /\ crashed = 0
(* open with truncation *)
Open(p) == /\ s[p].pc = "idle" /\ left > 0 /\ left' = left - 1
           /\ LET old == IF Design = "direct" THEN final ELSE aside[Name(p)]
                  i == IF old = 0 THEN next ELSE old
              IN /\ inodes' = [j \in DOMAIN inodes \union {i} |-> IF j = i THEN {} ELSE inodes[j]]
                 /\ next' = IF old = 0 THEN next + 1 ELSE next
                 /\ s' = [s EXCEPT ![p] = [pc |-> "write", fd |-> i, k |-> 1, failed |-> FALSE]]
                 /\ IF Design = "direct" THEN final' = i /\ UNCHANGED aside
                    ELSE aside' = [aside EXCEPT ![Name(p)] = i] /\ UNCHANGED final
           /\ UNCHANGED <<due, crashed>>
Write(p) == /\ s[p].pc = "write" /\ s[p].k <= N
            /\ \/ /\ inodes' = [inodes EXCEPT ![s[p].fd] = @ \union {s[p].k}]
                  /\ s' = [s EXCEPT ![p].k = @ + 1, ![p].pc = IF Design = "early" /\ s[p].k = N - 1 THEN "rename" ELSE @]
               \/ /\ s' = [s EXCEPT ![p].failed = TRUE, ![p].k = N + 1] /\ UNCHANGED inodes
            /\ UNCHANGED <<next, final, aside, left, due, crashed>>
Written(p) == /\ s[p].pc = "write" /\ s[p].k = N + 1
              /\ IF s[p].failed /\ Design # "blind" /\ Design # "direct"
                 THEN /\ s' = [s EXCEPT ![p] = Idle]
                      /\ aside' = [aside EXCEPT ![Name(p)] = 0] /\ UNCHANGED due
                 ELSE IF Design \in {"direct", "early"} THEN s' = [s EXCEPT ![p] = Idle] /\ due' = 1 /\ UNCHANGED aside
                 ELSE s' = [s EXCEPT ![p].pc = "rename"] /\ UNCHANGED <<aside, due>>
              /\ UNCHANGED <<inodes, next, final, left, crashed>>
Rename(p) == /\ s[p].pc = "rename"
             /\ IF aside[Name(p)] = 0
                THEN s' = [s EXCEPT ![p] = Idle] /\ UNCHANGED <<final, aside, due>>
                ELSE /\ final' = aside[Name(p)] /\ aside' = [aside EXCEPT ![Name(p)] = 0]
                     /\ s' = [s EXCEPT ![p] = IF Design = "early" THEN [@ EXCEPT !.pc = "write"] ELSE Idle]
                     /\ due' = IF Design = "early" THEN due ELSE 1
             /\ UNCHANGED <<inodes, next, left, crashed>>
Crash == /\ crashed = 0 /\ crashed' = 1 /\ s' = [p \in Savers |-> Idle] /\ left' = 0
         /\ UNCHANGED <<inodes, next, final, aside, due>>
Restart == /\ crashed = 1 /\ crashed' = 2 /\ left' = 1
           /\ UNCHANGED <<inodes, next, final, aside, s, due>>
Next == (\E p \in Savers : Open(p) \/ Write(p) \/ Written(p) \/ Rename(p)) \/ Crash \/ Restart
Spec == Init /\ [][Next]_vars

(* C07 *)
Whole == final # 0 => inodes[final] = Parts
Left == due = 1 => final # 0
=============================================================================
