------------------------------- MODULE Convert -------------------------------
(* make_buffer_from_raw: code units from bytes; make_buffer_from_input: the    *)
(* same characters in a buffer.                                                *)
EXTENDS Text, Calls, SequencesExt
Size(e) == CASE e = "utf16" -> 2 [] e = "utf32" -> 4 [] OTHER -> 1
RECURSIVE Value(_)
Value(bytes) == IF bytes = <<>> THEN 0 ELSE Value(Front(bytes)) * 256 + Last(bytes)   \* big endian
Group(bytes, n, big) == [k \in 1..(Len(bytes) \div n) |->
   LET g == SubSeq(bytes, (k - 1) * n + 1, k * n) IN Value(IF big THEN g ELSE Reverse(g))]
BomBig(e)    == CASE e = "utf8" -> <<239, 187, 191>> [] e = "utf16" -> <<254, 255>> [] OTHER -> <<0, 0, 254, 255>>
BomLittle(e) == CASE e = "utf8" -> <<239, 187, 191>> [] e = "utf16" -> <<255, 254>> [] OTHER -> <<255, 254, 0, 0>>
Raw(e, endian, bytes) ==
  CASE endian = "big"    -> Group(bytes, Size(e), TRUE)
    [] endian = "little" -> Group(bytes, Size(e), FALSE)
    [] OTHER -> LET b == BomBig(e)  l == BomLittle(e) IN
                IF IsPrefix(b, bytes) THEN Group(SubSeq(bytes, Len(b) + 1, Len(bytes)), Size(e), TRUE)
                ELSE IF IsPrefix(l, bytes) THEN Group(SubSeq(bytes, Len(l) + 1, Len(bytes)), Size(e), FALSE)
                ELSE Group(bytes, Size(e), TRUE)
(* shown: how many units, the units, and the units its reader gives *)
Shown(v) == <<Len(v)>> \o v \o v
Expectation(ob) == CASE ob.f = "raw" -> Shown(Raw(ob.e, ob.n, ob.i))
                     [] ob.f = "input" -> Shown(ob.i)
=============================================================================
