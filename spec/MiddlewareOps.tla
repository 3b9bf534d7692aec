---------------------------- MODULE MiddlewareOps ----------------------------
(* dht/krpc/middleware.go: a chain of functions 1..n (the last is the         *)
(* handler), run by an index that only grows.  Each function follows a        *)
(* program: "N" passes control on (everything later that has not run yet runs *)
(* now, one after the other, nested), "W" writes a reply.                     *)
(* A machine m is [n, next, stack]: next is the first function that has not   *)
(* run; stack (last is innermost) of [i, in]: function i, and whether it is   *)
(* inside a pass-on; the bottom frame 0 is the server's own first pass-on.    *)
EXTENDS Naturals, Sequences
Top(m) == m.stack[Len(m.stack)]
Start(n) == [n |-> n, next |-> 1, stack |-> <<[i |-> 0, in |-> TRUE]>>]
(* a pass-on runs the next function, while there is one *)
CanEnter(m) == m.stack # <<>> /\ Top(m).in /\ m.next <= m.n
Enter(m) == [m EXCEPT !.next = m.next + 1, !.stack = Append(m.stack, [i |-> m.next, in |-> FALSE])]
CanPass(m, i) == m.stack # <<>> /\ Top(m).i = i /\ ~Top(m).in
Pass(m) == [m EXCEPT !.stack[Len(m.stack)].in = TRUE]
CanBack(m, i) == m.stack # <<>> /\ Top(m).i = i /\ Top(m).in /\ m.next > m.n
Back(m) == [m EXCEPT !.stack[Len(m.stack)].in = FALSE]
CanLeave(m, i) == m.stack # <<>> /\ Top(m).i = i /\ ~Top(m).in
Leave(m) == [m EXCEPT !.stack = SubSeq(m.stack, 1, Len(m.stack) - 1)]
=============================================================================
