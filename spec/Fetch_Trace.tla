----------------------------- MODULE Fetch_Trace -----------------------------
(* One fetch of the real client from a scripted peer.  p: message the peer    *)
(* sent (before it was written): hs, ka, other, xh{id}, xu (a later extended  *)
(* handshake without size), pc{i} (the true piece i), bad (anything that is   *)
(* not part of the protocol, or the end of the connection);  c: what the      *)
(* client sent: hs{ok}, xh{id}, req{id,i}, other, junk, eof;  ret: the call's *)
(* result.  Cfg: pieces of the true metadata, claim, stall.                   *)
EXTENDS TraceLib
VARIABLES good,    \* the peer has kept to the protocol
          hs,      \* the peer has sent its handshake
          ids,     \* extension ids it announced for metadata
          sent,    \* pieces sent since the last handshake with a size
          asked
tvars == <<tid, l, good, hs, ids, sent, asked>>
Peer(m) == Is("p") /\ Ev.m = m
Hs == /\ Peer("hs") /\ good' = (good /\ ~hs) /\ hs' = TRUE /\ UNCHANGED <<ids, sent, asked>>
Other == /\ (Peer("ka") \/ Peer("other")) /\ good' = (good /\ hs) /\ UNCHANGED <<hs, ids, sent, asked>>
Xh == /\ Peer("xh") /\ good' = (good /\ hs) /\ ids' = ids \union {Ev.id} /\ sent' = {} /\ UNCHANGED <<hs, asked>>
Xu == /\ Peer("xu") /\ good' = (good /\ hs /\ ids # {}) /\ UNCHANGED <<hs, ids, sent, asked>>
Pc == /\ Peer("pc") /\ good' = (good /\ hs /\ ids # {}) /\ sent' = sent \union {Ev.i} /\ UNCHANGED <<hs, ids, asked>>
BadMsg == /\ Peer("bad") /\ good' = FALSE /\ UNCHANGED <<hs, ids, sent, asked>>
Client(m) == Is("c") /\ Ev.m = m
CHs == /\ Client("hs") /\ (On("C09") => Ev.ok) /\ UNCHANGED <<good, hs, ids, sent, asked>>
CXh == /\ Client("xh") /\ UNCHANGED <<good, hs, ids, sent, asked>>
(* requests use the peer's id and name pieces that exist *)
CReq == /\ Client("req")
        /\ ((On("C09") /\ good) => (Ev.id \in ids /\ Ev.i \in 0..(Cfg.pieces - 1)))
        /\ asked' = asked \union {Ev.i} /\ UNCHANGED <<good, hs, ids, sent>>
COther == /\ (Client("other") \/ Client("junk") \/ Client("eof")) /\ ((On("C09") /\ good) => Ev.m # "junk")
          /\ UNCHANGED <<good, hs, ids, sent, asked>>
Followed == good /\ hs /\ ids # {} /\ sent = 0..(Cfg.pieces - 1)
MaxMs == 20000
MaxKb == 16384
Ret == /\ Is("ret")
       /\ (On("C08") => IF Ev.ok THEN Ev.sha ELSE Ev.nodata)
       /\ (On("C09") => (Followed => (Ev.ok /\ Ev.same)))
       /\ (On("C10") => (/\ Ev.ms <= MaxMs /\ Ev.closed
                         /\ (Cfg.claim => Ev.alloc <= MaxKb)))
       /\ UNCHANGED <<good, hs, ids, sent, asked>>
TraceInit == TInit /\ good = TRUE /\ hs = FALSE /\ ids = {} /\ sent = {} /\ asked = {}
TraceNext == Hs \/ Other \/ Xh \/ Xu \/ Pc \/ BadMsg \/ CHs \/ CXh \/ CReq \/ COther \/ Ret
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
