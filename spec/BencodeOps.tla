----------------------------- MODULE BencodeOps -----------------------------
(* Bencoding as a function on byte sequences.  Parse(s, i) reads one value at *)
(* position i and gives [ok, val, next, dc]: whether a well-formed value      *)
(* starts there, which, where it ends, and whether the text uses a form on    *)
(* which the property takes no side (dc: string lengths with leading zeros,   *)
(* repeated dictionary keys).                                                 *)
(* Values: <<"i", text>>, <<"s", bytes>>, <<"l", values>>, <<"d", set of      *)
(* <<key, value>>>>; integers are kept as canonical decimal text because they *)
(* range over 64 bits.                                                        *)
EXTENDS Naturals, Sequences, FiniteSets

cI == 105  cL == 108  cD == 100  cE == 101  cColon == 58  cMinus == 45  c0 == 48
IsDigit(c) == c >= 48 /\ c <= 57

At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0 - 1

RECURSIVE DigitsEnd(_, _)    \* first position at or after i that holds no digit
DigitsEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitsEnd(s, i + 1) ELSE i

(* decimal text comparison, both without leading zeros *)
RECURSIVE LexLE(_, _, _)
LexLE(a, b, i) == IF i > Len(a) THEN TRUE
                  ELSE IF a[i] < b[i] THEN TRUE ELSE IF a[i] > b[i] THEN FALSE ELSE LexLE(a, b, i + 1)
DecLE(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLE(a, b, 1))
MaxPos == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>  \* 9223372036854775807
MaxNeg == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>  \* 9223372036854775808

RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = c0 THEN StripZeros(Tail(d)) ELSE d
(* value of decimal text, or more than 10^8: enough to compare with lengths of inputs *)
RECURSIVE DecVal(_, _, _)
DecVal(d, i, acc) == IF i > Len(d) THEN acc ELSE DecVal(d, i + 1, acc * 10 + (d[i] - 48))
Len2(d) == LET t == StripZeros(d) IN IF Len(t) > 8 THEN 100000000 ELSE DecVal(t, 1, 0)

No == [ok |-> FALSE, val |-> <<"none">>, next |-> 0, dc |-> FALSE]

ParseInt(s, i) ==
  LET neg == At(s, i + 1) = cMinus
      b   == IF neg THEN i + 2 ELSE i + 1
      f   == DigitsEnd(s, b)
      d   == SubSeq(s, b, f - 1)
  IN IF /\ f > b /\ At(s, f) = cE
        /\ (d[1] = c0 => (Len(d) = 1 /\ ~neg))
        /\ DecLE(d, IF neg THEN MaxNeg ELSE MaxPos)
     THEN [ok |-> TRUE, val |-> <<"i", SubSeq(s, i + 1, f - 1)>>, next |-> f + 1, dc |-> FALSE]
     ELSE No

ParseStr(s, i) ==
  LET f == DigitsEnd(s, i)
      d == SubSeq(s, i, f - 1)
      n == Len2(d)
  IN IF f > i /\ At(s, f) = cColon /\ f + n <= Len(s)
     THEN [ok |-> TRUE, val |-> <<"s", SubSeq(s, f + 1, f + n)>>, next |-> f + n + 1,
           dc |-> Len(d) > 1 /\ d[1] = c0]
     ELSE No

RECURSIVE Parse(_, _), ParseItems(_, _, _, _), ParsePairs(_, _, _, _)
ParseItems(s, i, acc, dc) ==
  IF At(s, i) = cE THEN [ok |-> TRUE, val |-> <<"l", acc>>, next |-> i + 1, dc |-> dc]
  ELSE LET r == Parse(s, i) IN
       IF r.ok THEN ParseItems(s, r.next, Append(acc, r.val), dc \/ r.dc)
       ELSE [No EXCEPT !.dc = dc]
ParsePairs(s, i, acc, dc) ==
  IF At(s, i) = cE THEN [ok |-> TRUE, val |-> <<"d", acc>>, next |-> i + 1, dc |-> dc]
  ELSE LET k == IF IsDigit(At(s, i)) THEN ParseStr(s, i) ELSE No IN
       IF ~k.ok THEN [No EXCEPT !.dc = dc]
       ELSE LET v == Parse(s, k.next) IN
            IF ~v.ok THEN [No EXCEPT !.dc = dc \/ k.dc]
            ELSE ParsePairs(s, v.next, {p \in acc : p[1] # k.val[2]} \union {<<k.val[2], v.val>>},
                            dc \/ k.dc \/ v.dc \/ \E p \in acc : p[1] = k.val[2])
Parse(s, i) ==
  LET c == At(s, i) IN
  IF c = cI THEN ParseInt(s, i)
  ELSE IF c = cL THEN ParseItems(s, i + 1, <<>>, FALSE)
  ELSE IF c = cD THEN ParsePairs(s, i + 1, {}, FALSE)
  ELSE IF IsDigit(c) THEN ParseStr(s, i)
  ELSE No

(* the whole of s is one well-formed value of kind t *)
Whole(s, t) == LET r == Parse(s, 1) IN r.ok /\ r.next = Len(s) + 1 /\ r.val[1] = t

RECURSIVE Digits(_)          \* decimal text of a natural number
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
RECURSIVE Enc(_), EncAll(_)  \* the encoding of a value without dictionaries of two or more keys is unique
Enc(v) == CASE v[1] = "i" -> <<cI>> \o v[2] \o <<cE>>
            [] v[1] = "s" -> Digits(Len(v[2])) \o <<cColon>> \o v[2]
            [] v[1] = "l" -> <<cL>> \o EncAll(v[2]) \o <<cE>>
            [] v[1] = "d" -> LET RECURSIVE F(_)
                                 F(S) == IF S = {} THEN <<>>
                                         ELSE LET p == CHOOSE p \in S : TRUE
                                              IN Digits(Len(p[1])) \o <<cColon>> \o p[1] \o Enc(p[2]) \o F(S \ {p})
                             IN <<cD>> \o F(v[2]) \o <<cE>>
EncAll(vs) == IF vs = <<>> THEN <<>> ELSE Enc(Head(vs)) \o EncAll(Tail(vs))
=============================================================================
