------------------------------- MODULE Bencode -------------------------------
(* Bencoding as a machine that reads one byte at a time: a stack of open      *)
(* containers and the current token.  Every reachable state is a viable       *)
(* prefix of some well-formed text; Complete says the bytes read so far are   *)
(* exactly one value.  Checked against the recursive definition (BencodeOps)  *)
(* and used to enumerate inputs: all viable prefixes up to MaxLen over the    *)
(* alphabet, and every one-byte deviation from them.                          *)
EXTENDS BencodeOps, Integers, TLC, Json

CONSTANTS Alphabet, MaxLen, MaxStr

VARIABLES text,   \* bytes read
          stack,  \* open containers: "l", "k" (dict expecting a key), "v" (dict expecting a value)
          tok,    \* "start", "done", "int", "int-", "int0", "intd", "len", "len0", "str", "item"
          need    \* bytes of the current string still to come, or its length so far
vars == <<text, stack, tok, need>>

Init == text = <<>> /\ stack = <<>> /\ tok = "item" /\ need = 0

Top == stack[Len(stack)]
CanValue == IF stack = <<>> THEN TRUE ELSE stack[Len(stack)] # "k"
Pop == SubSeq(stack, 1, Len(stack) - 1)
CanClose == IF stack = <<>> THEN FALSE ELSE stack[Len(stack)] # "v"
(* a value has just ended with stack st (below it) *)
AfterValue(st) ==
  /\ stack' = IF st = <<>> THEN st
              ELSE IF st[Len(st)] = "k" THEN [st EXCEPT ![Len(st)] = "v"]
              ELSE IF st[Len(st)] = "v" THEN [st EXCEPT ![Len(st)] = "k"] ELSE st
  /\ tok' = IF st = <<>> THEN "done" ELSE "item"
  /\ need' = 0

Read(c) ==
  /\ Len(text) < MaxLen
  /\ text' = Append(text, c)
  /\ \/ /\ tok = "item" /\ c = cI /\ CanValue
        /\ tok' = "int" /\ UNCHANGED <<stack, need>>
     \/ /\ tok = "item" /\ c = cL /\ CanValue
        /\ stack' = Append(stack, "l") /\ UNCHANGED <<tok, need>>
     \/ /\ tok = "item" /\ c = cD /\ CanValue
        /\ stack' = Append(stack, "k") /\ UNCHANGED <<tok, need>>
     \/ /\ tok = "item" /\ c = cE /\ CanClose
        /\ AfterValue(Pop)
     \/ /\ tok = "item" /\ IsDigit(c)
        /\ tok' = (IF c = c0 THEN "len0" ELSE "len") /\ need' = c - 48 /\ UNCHANGED stack
     \/ /\ tok = "len" /\ IsDigit(c) /\ need * 10 + c - 48 <= MaxStr
        /\ need' = need * 10 + c - 48 /\ UNCHANGED <<tok, stack>>
     \/ /\ tok \in {"len", "len0"} /\ c = cColon
        /\ IF need = 0 THEN AfterValue(stack) ELSE tok' = "str" /\ UNCHANGED <<stack, need>>
     \/ /\ tok = "str"
        /\ IF need = 1 THEN AfterValue(stack) ELSE need' = need - 1 /\ UNCHANGED <<tok, stack>>
     \/ /\ tok = "int" /\ c = cMinus /\ tok' = "int-" /\ UNCHANGED <<stack, need>>
     \/ /\ tok = "int" /\ c = c0 /\ tok' = "int0" /\ UNCHANGED <<stack, need>>
     \/ /\ tok \in {"int", "int-"} /\ IsDigit(c) /\ c # c0 /\ tok' = "intd" /\ UNCHANGED <<stack, need>>
     \/ /\ tok = "intd" /\ IsDigit(c) /\ UNCHANGED <<tok, stack, need>>
     \/ /\ tok \in {"int0", "intd"} /\ c = cE /\ AfterValue(stack)

Next == \E c \in Alphabet : Read(c)
Spec == Init /\ [][Next]_vars

Complete == tok = "done"
(* the machine and the recursive definition are the same language *)
Agree == LET r == Parse(text, 1) IN
           Complete <=> (r.ok /\ r.next = Len(text) + 1)
(* and encoding the value gives well-formed text denoting it *)
RoundTrip == Complete =>
  LET v == Parse(text, 1).val
      e == Parse(Enc(v), 1)
  IN e.ok /\ e.next = Len(Enc(v)) + 1 /\ e.val = v
(* a byte the machine refuses makes the text hopeless: no extension parses *)
Dead == \A c \in Alphabet :
          (~ENABLED Read(c) /\ Len(text) < MaxLen /\ tok \notin {"len", "done"}) =>
             ~Parse(Append(text, c), 1).ok

PrintBeh == PrintT(<<"BEH", ToJson(text)>>)
=============================================================================
