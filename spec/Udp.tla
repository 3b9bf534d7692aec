--------------------------------- MODULE Udp ---------------------------------
(* dht/krpc/udp.go: one receiving routine reads datagrams into buffers of a   *)
(* pool and puts them on a channel of capacity Cap; the consumer takes them,  *)
(* may hold several, and gives buffers back when it is done with them.        *)
(* Fresh = FALSE is the design that reads every datagram into one buffer.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Max, Cap, Bufs, Fresh, EnvQuiet
VARIABLES kernel,   \* datagrams that reached the socket, not yet read
          arrived,  \* number of datagrams so far: the datagrams are 1, 2, ...
          content,  \* buffer -> datagram in it
          free, reader, \* reader: 0, or the buffer just filled
          chan, held, \* held: sequence of <<buffer, datagram it held when taken>>
          taken,    \* datagrams taken by the consumer, in order
          open, lateGot, hist
vars == <<kernel, arrived, content, free, reader, chan, held, taken, open, lateGot, hist>>
B == 1..Bufs
Init == /\ kernel = <<>> /\ arrived = 0 /\ content = [b \in B |-> 0] /\ free = B /\ reader = 0
        /\ chan = <<>> /\ held = <<>> /\ taken = <<>> /\ open = TRUE /\ lateGot = FALSE /\ hist = <<>>
CanRead == open /\ reader = 0 /\ kernel # <<>> /\ free # {}
Read == /\ CanRead
        /\ LET b == IF Fresh THEN CHOOSE x \in free : \A y \in free : x <= y ELSE 1 IN
           /\ content' = [content EXCEPT ![b] = Head(kernel)]
           /\ free' = IF Fresh THEN free \ {b} ELSE free
           /\ reader' = b
        /\ kernel' = Tail(kernel) /\ UNCHANGED <<arrived, chan, held, taken, open, lateGot, hist>>
Push == /\ reader # 0 /\ Len(chan) < Cap /\ chan' = Append(chan, reader) /\ reader' = 0
        /\ UNCHANGED <<kernel, arrived, content, free, held, taken, open, lateGot, hist>>
Quiet == ~CanRead /\ ~(reader # 0 /\ Len(chan) < Cap)
Env(op) == (EnvQuiet => Quiet) /\ hist' = Append(hist, op)
Arrive == /\ arrived < Max /\ Env("in") /\ arrived' = arrived + 1
          /\ kernel' = IF open THEN Append(kernel, arrived + 1) ELSE kernel
          /\ UNCHANGED <<content, free, reader, chan, held, taken, open, lateGot>>
Take == /\ chan # <<>> /\ Env("take") /\ chan' = Tail(chan)
        /\ held' = Append(held, <<Head(chan), content[Head(chan)]>>) /\ taken' = Append(taken, content[Head(chan)])
        /\ UNCHANGED <<kernel, arrived, content, free, reader, open, lateGot>>
Release == /\ held # <<>> /\ Env("release") /\ held' = Tail(held)
           /\ free' = free \union {held[1][1]}
           /\ UNCHANGED <<kernel, arrived, content, reader, chan, taken, open, lateGot>>
Close == /\ Env("close") /\ open /\ open' = FALSE /\ kernel' = <<>>
         /\ UNCHANGED <<arrived, content, free, reader, chan, held, taken, lateGot>>
Next == Read \/ Push \/ Arrive \/ Take \/ Release \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Read) /\ WF_vars(Push)
IntactInOrder == open => taken = [i \in 1..Len(taken) |-> i]
Intact == \A i \in 1..Len(held) : content[held[i][1]] = held[i][2]
Once == \A i, j \in 1..Len(taken) : i # j => taken[i] # taken[j]
Sorted == \A i, j \in 1..Len(taken) : i < j => taken[i] < taken[j]
NoneLost == open => Len(taken) + Len(chan) + Len(kernel) + (IF reader = 0 THEN 0 ELSE 1) = arrived
View == <<kernel, arrived, content, free, reader, chan, held, taken, open>>
GenView == vars
PrintBeh == (hist = <<>> \/ ~Quiet) \/ PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
