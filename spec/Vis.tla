--------------------------------- MODULE Vis ---------------------------------
(* Visualisation of code points, lexemes and trees under every option.        *)
(* An option record o:                                                        *)
(*   u unicode, c colour, s symbols, sp visible space  (BOOLEAN)              *)
(*   d maximal tree depth, w maximal lexeme width (0: unlimited), tab width   *)
(* Bytes of the output that are not printable ASCII are written {HH}, as the  *)
(* harness does.                                                              *)
EXTENDS Text

DefOpt == [u |-> FALSE, c |-> FALSE, s |-> FALSE, sp |-> FALSE, d |-> 32, w |-> 0, tab |-> 0]

Col(o, code) == IF o.c THEN "{1B}[" \o code \o "m" ELSE ""
Reset(o) == Col(o, "0")
Ellipsis(o) == IF o.u THEN "{E2}{80}{A6}" ELSE "..."
Special(o, x) ==
  Col(o, "36;2") \o (IF o.u THEN "{E2}{9F}{A8}" ELSE "\\") \o x \o (IF o.u THEN "{E2}{9F}{A9}" ELSE "") \o Reset(o)
Symbol(o, x) == Col(o, "2") \o x \o Reset(o)

(* at least n digits *)
HexMin(v, n) == IF v < 65536 THEN Hex(v, n) ELSE IF v < 1048576 THEN Hex(v, Max2(5, n)) ELSE Hex(v, Max2(6, n))

RECURSIVE Times(_,_)
Times(x, n) == IF n = 0 THEN "" ELSE x \o Times(x, n - 1)

VSpace(o) ==
  IF ~o.sp THEN " "
  ELSE IF o.s THEN Symbol(o, "{E2}{90}{A3}")
  ELSE Special(o, IF o.u THEN "SP" ELSE "u0020")

VCp(o, cp) ==
  IF cp = 0 THEN Special(o, IF o.u THEN "NUL" ELSE "0")
  ELSE IF cp = 13 THEN Special(o, IF o.u THEN "CR" ELSE "r")
  ELSE IF cp = 10 THEN IF o.s THEN Symbol(o, "{E2}{8F}{8E}") ELSE Special(o, IF o.u THEN "LF" ELSE "n")
  ELSE IF cp = 9 THEN IF o.tab > 0 THEN Times(VSpace(o), o.tab)
                      ELSE IF o.s THEN Symbol(o, "{E2}{87}{A8}") ELSE Special(o, IF o.u THEN "HT" ELSE "t")
  ELSE IF cp < 32 \/ cp \in 127..159 THEN Special(o, (IF o.u THEN "U+" ELSE "u") \o Hex(cp, 4))
  ELSE IF cp = 32 THEN VSpace(o)
  ELSE IF cp = 92 THEN IF o.u THEN "\\" ELSE Special(o, "\\")
  ELSE IF cp < 127 THEN PrintTab[cp-31]
  ELSE IF cp > 1114111 THEN Special(o, IF o.u THEN "U+????" ELSE "u????")
  ELSE IF o.u THEN Special(o, "U+" \o HexMin(cp, 4))
  ELSE IF cp < 65536 THEN Special(o, "u" \o Hex(cp, 4))
  ELSE Special(o, "U" \o Hex(cp, 8))

VByte(o, b) == Special(o, (IF o.u THEN "0x" ELSE "x") \o Hex(b, 2))

VUnit(o, enc, u) ==    \* one malformed code unit, most significant byte first, without leading zero bytes
  CASE enc = "utf16" -> (IF u \div 256 # 0 THEN VByte(o, u \div 256) ELSE "") \o VByte(o, u % 256)
    [] enc = "utf32" ->
         LET a == u \div 16777216  b == (u \div 65536) % 256  cc == (u \div 256) % 256  dd == u % 256 IN
         (IF a # 0 THEN VByte(o, a) ELSE "") \o (IF a # 0 \/ b # 0 THEN VByte(o, b) ELSE "")
         \o (IF a # 0 \/ b # 0 \/ cc # 0 THEN VByte(o, cc) ELSE "") \o VByte(o, dd)
    [] OTHER -> VByte(o, u)
RECURSIVE VUnits(_,_,_)
VUnits(o, enc, us) == IF us = <<>> THEN "" ELSE VUnit(o, enc, Head(us)) \o VUnits(o, enc, Tail(us))

(* the text us, after n characters of it have been shown *)
RECURSIVE VFrom(_,_,_,_,_)
VFrom(o, enc, us, p, n) ==
  IF p >= Len(us) THEN ""
  ELSE LET d == Decode(enc, us, p)
           e == IF enc = "byte" \/ enc = "default" THEN p + 1 ELSE IF d.ok THEN d.end ELSE RecoverEnd(d, p)
           x == IF enc = "byte" THEN Special(o, Hex(us[p+1], 2))
                ELSE IF enc = "default" THEN (IF us[p+1] <= 127 THEN VCp(o, us[p+1]) ELSE VByte(o, us[p+1]))
                ELSE IF d.ok THEN VCp(o, d.cp)
                ELSE VUnits(o, enc, SubSeq(us, p+1, e))
       IN x \o (IF n + 1 = o.w THEN Ellipsis(o) ELSE VFrom(o, enc, us, e, n + 1))
VText(o, enc, us) == VFrom(o, enc, us, 0, 0)
VLex(o, enc, inp, a, b) == VText(o, enc, SubSeq(inp, a+1, b))

(* columns taken by the shown text: escape sequences of colours do not count *)
Visible(o) == [o EXCEPT !.sp = TRUE]
Plain(o) == [o EXCEPT !.c = FALSE]

(* columns of what is written, without the colours *)
SpecialWidth(o, n) == IF o.u THEN n + 2 ELSE n + 1
EllipsisWidth(o) == IF o.u THEN 1 ELSE 3
SpaceWidth(o) == IF ~o.sp \/ o.s THEN 1 ELSE SpecialWidth(o, IF o.u THEN 2 ELSE 5)
CpWidth(o, cp) ==
  IF cp = 0 THEN SpecialWidth(o, IF o.u THEN 3 ELSE 1)
  ELSE IF cp = 13 THEN SpecialWidth(o, IF o.u THEN 2 ELSE 1)
  ELSE IF cp = 9 /\ o.tab > 0 THEN o.tab * SpaceWidth(o)
  ELSE IF cp \in {9, 10} THEN IF o.s THEN 1 ELSE SpecialWidth(o, IF o.u THEN 2 ELSE 1)
  ELSE IF cp = 32 THEN SpaceWidth(o)
  ELSE IF cp = 92 THEN IF o.u THEN 1 ELSE 2
  ELSE IF cp \in 33..126 THEN 1
  ELSE IF cp > 1114111 THEN SpecialWidth(o, IF o.u THEN 6 ELSE 5)
  ELSE IF cp < 65536 THEN SpecialWidth(o, IF o.u THEN 6 ELSE 5)
  ELSE SpecialWidth(o, IF ~o.u THEN 9 ELSE IF cp < 1048576 THEN 7 ELSE 8)
ByteWidth(o) == SpecialWidth(o, IF o.u THEN 4 ELSE 3)
UnitWidth(o, enc, u) == ByteWidth(o) *
  CASE enc = "utf16" -> IF u > 255 THEN 2 ELSE 1
    [] enc = "utf32" -> IF u >= 16777216 THEN 4 ELSE IF u >= 65536 THEN 3 ELSE IF u >= 256 THEN 2 ELSE 1
    [] OTHER -> 1
RECURSIVE WUnits(_,_,_)
WUnits(o, enc, us) == IF us = <<>> THEN 0 ELSE UnitWidth(o, enc, Head(us)) + WUnits(o, enc, Tail(us))
RECURSIVE WFrom(_,_,_,_,_)
WFrom(o, enc, us, p, n) ==
  IF p >= Len(us) THEN 0
  ELSE LET d == Decode(enc, us, p)
           e == IF enc = "byte" \/ enc = "default" THEN p + 1 ELSE IF d.ok THEN d.end ELSE RecoverEnd(d, p)
           x == IF enc = "byte" THEN SpecialWidth(o, 2)
                ELSE IF enc = "default" THEN (IF us[p+1] <= 127 THEN CpWidth(o, us[p+1]) ELSE ByteWidth(o))
                ELSE IF d.ok THEN CpWidth(o, d.cp)
                ELSE WUnits(o, enc, SubSeq(us, p+1, e))
       IN x + (IF n + 1 = o.w THEN EllipsisWidth(o) ELSE WFrom(o, enc, us, e, n + 1))
=============================================================================
