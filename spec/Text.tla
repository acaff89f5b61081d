-------------------------------- MODULE Text --------------------------------
(* Encodings, code points, character classes and string rendering.          *)
(* An input is a sequence of code units (naturals); positions are 0-based:  *)
(* the unit at position p is inp[p+1]; p = Len(inp) is the end of input.    *)
EXTENDS Naturals, Integers, Sequences, TLC, FiniteSets

Unit(inp, p) == IF p < Len(inp) THEN inp[p+1] ELSE -1

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* ---- printable ASCII, used to render lexemes ---- *)
PrintTab == <<
 " ","!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/",
 "0","1","2","3","4","5","6","7","8","9",":",";","<","=",">","?",
 "@","A","B","C","D","E","F","G","H","I","J","K","L","M","N","O",
 "P","Q","R","S","T","U","V","W","X","Y","Z","[","\\","]","^","_",
 "`","a","b","c","d","e","f","g","h","i","j","k","l","m","n","o",
 "p","q","r","s","t","u","v","w","x","y","z","{","|","}","~" >>
Chr(u) == IF u \in 32..126 THEN PrintTab[u-31] ELSE "?"

HexTab == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
RECURSIVE Hex(_,_)
Hex(v, width) ==      \* at least `width` digits
   IF v < 16 /\ width <= 1 THEN HexTab[v+1]
   ELSE Hex(v \div 16, width - 1) \o HexTab[(v % 16) + 1]

(* ---- UTF decoding; the "maximal" result used by the library:            *)
(*      [ok, cp, end, err]  err in "", "eof", "leading", "trailing",       *)
(*      "surrogate", "range", "overlong".                                   *)
Res(ok, cp, end, err) == [ok |-> ok, cp |-> cp, end |-> end, err |-> err]
IsSurr(cp) == cp \in 55296..57343

IsCont(u) == u \in 128..191

Decode8(inp, p) ==
  LET u == Unit(inp, p) IN
  IF u = -1 THEN Res(FALSE, 0, p, "eof")
  ELSE IF u <= 127 THEN Res(TRUE, u, p+1, "")
  ELSE IF u <= 191 THEN Res(FALSE, 0, p, "leading")
  ELSE IF u <= 223 THEN                     \* two units
     LET c1 == Unit(inp, p+1) IN
     IF ~IsCont(c1) THEN Res(FALSE, 0, p+1, "trailing")
     ELSE LET cp == (u % 32) * 64 + (c1 % 64) IN
          IF cp < 128 THEN Res(FALSE, cp, p+2, "overlong") ELSE Res(TRUE, cp, p+2, "")
  ELSE IF u <= 239 THEN                     \* three units
     LET c1 == Unit(inp, p+1) c2 == Unit(inp, p+2) IN
     IF ~IsCont(c1) THEN Res(FALSE, 0, p+1, "trailing")
     ELSE IF ~IsCont(c2) THEN Res(FALSE, 0, p+2, "trailing")
     ELSE LET cp == (u % 16) * 4096 + (c1 % 64) * 64 + (c2 % 64) IN
          IF IsSurr(cp) THEN Res(FALSE, cp, p+3, "surrogate")
          ELSE IF cp < 2048 THEN Res(FALSE, cp, p+3, "overlong") ELSE Res(TRUE, cp, p+3, "")
  ELSE IF u <= 247 THEN
     LET c1 == Unit(inp, p+1) c2 == Unit(inp, p+2) c3 == Unit(inp, p+3) IN
     IF ~IsCont(c1) THEN Res(FALSE, 0, p+1, "trailing")
     ELSE IF ~IsCont(c2) THEN Res(FALSE, 0, p+2, "trailing")
     ELSE IF ~IsCont(c3) THEN Res(FALSE, 0, p+3, "trailing")
     ELSE LET cp == (u % 8) * 262144 + (c1 % 64) * 4096 + (c2 % 64) * 64 + (c3 % 64) IN
          IF cp > 1114111 THEN Res(FALSE, cp, p+4, "range")
          ELSE IF cp < 65536 THEN Res(FALSE, cp, p+4, "overlong") ELSE Res(TRUE, cp, p+4, "")
  ELSE Res(FALSE, 0, p, "leading")

Decode16(inp, p) ==
  LET u == Unit(inp, p) IN
  IF u = -1 THEN Res(FALSE, 0, p, "eof")
  ELSE IF u \in 56320..57343 THEN Res(FALSE, 0, p, "leading")
  ELSE IF u \in 55296..56319 THEN
     LET l == Unit(inp, p+1) IN
     IF l \in 56320..57343
     THEN Res(TRUE, 65536 + (u - 55296) * 1024 + (l - 56320), p+2, "")
     ELSE Res(FALSE, 0, p+1, "trailing")
  ELSE Res(TRUE, u, p+1, "")

Decode32(inp, p) ==
  LET u == Unit(inp, p) IN
  IF u = -1 THEN Res(FALSE, 0, p, "eof")
  ELSE IF u < 0 \/ u > 1114111 THEN Res(FALSE, u, p+1, "range")
  ELSE IF IsSurr(u) THEN Res(FALSE, u, p+1, "surrogate")
  ELSE Res(TRUE, u, p+1, "")

DecodeAscii(inp, p) ==
  LET u == Unit(inp, p) IN
  IF u = -1 THEN Res(FALSE, 0, p, "eof")
  ELSE IF u <= 127 THEN Res(TRUE, u, p+1, "")
  ELSE Res(FALSE, u, p+1, "range")

(* The byte-ish encodings treat one unit as one character. *)
DecodeByte(inp, p) ==
  LET u == Unit(inp, p) IN
  IF u = -1 THEN Res(FALSE, 0, p, "eof") ELSE Res(TRUE, u, p+1, "")

Decode(enc, inp, p) ==
  CASE enc = "utf8"  -> Decode8(inp, p)
    [] enc = "utf16" -> Decode16(inp, p)
    [] enc = "utf32" -> Decode32(inp, p)
    [] enc = "ascii" -> DecodeAscii(inp, p)
    [] OTHER         -> DecodeByte(inp, p)

IsUnicodeEnc(enc) == enc \in {"utf8", "utf16", "utf32"}

(* ---- character classes: sets of code points in a boolean algebra ---- *)
RECURSIVE InClass(_,_)
InClass(c, cp) ==
  CASE c.k = "set"   -> \E i \in 1..Len(c.rs) : c.rs[i][1] <= cp /\ cp <= c.rs[i][2]
    [] c.k = "not"   -> ~InClass(c.c, cp)
    [] c.k = "alt"   -> \E i \in 1..Len(c.cs) : InClass(c.cs[i], cp)
    [] c.k = "and"   -> \A i \in 1..Len(c.cs) : InClass(c.cs[i], cp)
    [] c.k = "minus" -> InClass(c.a, cp) /\ ~InClass(c.b, cp)

(* end position of one character of the class at p, or -1 *)
ClassEnd(c, enc, inp, p) ==
  LET u == Unit(inp, p) IN
  IF u = -1 THEN -1
  ELSE IF u <= 127 /\ u >= 0 THEN (IF InClass(c, u) THEN p + 1 ELSE -1)
  ELSE LET d == Decode(enc, inp, p) IN
       IF d.ok /\ InClass(c, d.cp) THEN d.end ELSE -1

(* ---- simple case folding; the folding table of the corpus alphabet ---- *)
AsciiFold(u) == IF u \in 65..90 THEN u + 32 ELSE u

(* after a decoding error, how many units the library skips *)
RecoverEnd(d, p) == IF d.end = p THEN p + 1 ELSE d.end

(* ---- locations: 1-based line and column, columns count code units ---- *)
(* a newline is "\n" or "\r\n"; it belongs to the line it terminates; a       *)
(* position inside of a newline has the location of the newline            *)
LineCol(inp, p) ==
  LET nls == {i \in 1..Min2(p, Len(inp)) : inp[i] = 10}
      last == IF nls = {} THEN 0 ELSE CHOOSE m \in nls : \A x \in nls : x <= m
      inside == p > last /\ p < Len(inp) /\ inp[p] = 13 /\ inp[p+1] = 10
  IN <<Cardinality(nls) + 1, p - last + (IF inside THEN 0 ELSE 1)>>
=============================================================================
