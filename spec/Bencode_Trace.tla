---------------------------- MODULE Bencode_Trace ----------------------------
(* Calls of the real decoders and encoders against BencodeOps.                *)
(*   dec  fn in ok val next   fn is int, str, list, dict or prefix            *)
(*   enc  fn val ok out backok back                                           *)
(* Values arrive as {t, v}; kinds the encoding has no form for have t = "x",  *)
(* a nil list or dictionary t = "nil" (no side taken).                        *)
EXTENDS TraceLib, BencodeOps

tvars == <<tid, l>>

RECURSIVE Norm(_)
Norm(v) == CASE v.t \in {"i", "s"} -> <<v.t, v.v>>
             [] v.t = "l" -> <<"l", [i \in 1..Len(v.v) |-> Norm(v.v[i])]>>
             [] v.t = "d" -> <<"d", {<<v.v[i].k, Norm(v.v[i].v)>> : i \in 1..Len(v.v)}>>
             [] OTHER -> <<v.t>>
RECURSIVE Has(_, _)
Has(v, t) == \/ v.t = t
             \/ v.t = "l" /\ \E i \in 1..Len(v.v) : Has(v.v[i], t)
             \/ v.t = "d" /\ \E i \in 1..Len(v.v) : Has(v.v[i].v, t)

Kind(fn) == CASE fn = "int" -> "i" [] fn = "str" -> "s" [] fn = "list" -> "l" [] OTHER -> "d"

Dec == /\ Is("dec")
       /\ On("C20") =>
            LET r    == Parse(Ev.in, 1)
                good == /\ r.ok /\ r.val[1] = Kind(Ev.fn)
                        /\ (Ev.fn = "prefix" \/ r.next = Len(Ev.in) + 1)
            IN IF r.dc THEN TRUE
               ELSE IF good THEN /\ Ev.ok /\ (Ev.val.t = "deep" \/ Norm(Ev.val) = r.val)
                                 /\ Ev.fn = "prefix" => Ev.next = r.next - 1
               ELSE ~Ev.ok
Encode ==
       /\ Is("enc")
       /\ On("C21") =>
            IF Has(Ev.val, "x") THEN ~Ev.ok
            ELSE IF Has(Ev.val, "nil") THEN TRUE
            ELSE LET r == Parse(Ev.out, 1) IN
                   /\ Ev.ok
                   /\ r.ok /\ r.next = Len(Ev.out) + 1 /\ r.val = Norm(Ev.val)
                   /\ Ev.backok /\ Norm(Ev.back) = Norm(Ev.val)
(* Values too large to write down: n parts (or n bytes), the last cut bytes   *)
(* of the encoding taken off, tail bytes added.  same: the value decoded is   *)
(* the one encoded; back: encoding and decoding it again gives it back.       *)
Big == /\ Is("big")
       /\ LET good == Ev.cut = 0 /\ (Ev.tail = 0 \/ Ev.fn = "prefix") IN
          /\ On("C20") => IF good THEN /\ Ev.ok /\ Ev.same
                                       /\ Ev.fn = "prefix" => Ev.next = Ev.size
                          ELSE ~Ev.ok
          /\ (On("C21") /\ good /\ Ev.n <= 20000) => (Ev.encok /\ Ev.back)
(* very deep nesting may be refused; it must not be accepted when unfinished  *)
Nested == /\ Is("nested")
          /\ On("C20") => /\ ~Ev.whole => ~Ev.ok
                          /\ (Ev.whole /\ Ev.n <= 5000) => Ev.ok
TraceInit == TInit
TraceNext == Dec \/ Encode \/ Big \/ Nested
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
