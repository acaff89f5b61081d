----------------------------- MODULE CodePoints -----------------------------
(* Encoding and decoding of code points.                                       *)
EXTENDS Text, Calls, SequencesExt

Enc8(cp) ==
  IF cp <= 127 THEN <<cp>>
  ELSE IF cp <= 2047 THEN <<192 + cp \div 64, 128 + (cp % 64)>>
  ELSE IF cp <= 65535 THEN <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
  ELSE <<240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
Enc16(cp) == IF cp <= 65535 THEN <<cp>> ELSE <<55296 + (cp - 65536) \div 1024, 56320 + ((cp - 65536) % 1024)>>
Encode(e, cp) == CASE e = "utf8" -> Enc8(cp) [] e = "utf16" -> Enc16(cp) [] OTHER -> <<cp>>

(* what decoding at each position of the input gives: code point and end, or -1 and the position *)
At(e, inp, p) == LET d == Decode(e, inp, p) IN IF d.ok THEN <<d.cp, d.end>> ELSE <<-1, p>>

(* decoding is the inverse of encoding, consumes all of it, and no strict prefix decodes *)
RoundTrip(e, cp) ==
  LET u == Encode(e, cp) IN
  /\ At(e, u, 0) = <<cp, Len(u)>>
  /\ \A n \in 0..(Len(u) - 1) : ~Decode(e, SubSeq(u, 1, n), 0).ok

Expectation(ob) ==
  CASE ob.f = "enc" -> IF \A i \in 1..Len(ob.i) : RoundTrip(ob.e, ob.i[i])
                       THEN FlattenSeq([i \in 1..Len(ob.i) |-> Encode(ob.e, ob.i[i])])
                       ELSE <<-99>>
    [] ob.f = "dec" -> FlattenSeq([p \in 1..Len(ob.i) |-> At(ob.e, ob.i, p - 1)])
=============================================================================
