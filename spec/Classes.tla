------------------------------- MODULE Classes -------------------------------
(* Character classes as sets of Unicode scalar values. A class expression is  *)
(* an atom (an explicit set or a named set of the Unicode character database) *)
(* or a combination of others. Facts about code points come from              *)
(* spec/data/unicode.json.                                                     *)
EXTENDS Text, Calls, FiniteSetsExt

Ucd == JsonDeserialize(IOEnv.UCD)
Cls == JsonDeserialize(IOEnv.CLASSES)      \* the class expressions of the corpus: [x, n]

(* membership in a sorted sequence of ranges, by bisection *)
RECURSIVE Bisect(_,_,_,_)
Bisect(rs, cp, lo, hi) ==                  \* the range, if any, is in lo..hi
  IF lo > hi THEN FALSE
  ELSE LET m == (lo + hi) \div 2 IN
       IF cp < rs[m][1] THEN Bisect(rs, cp, lo, m - 1)
       ELSE IF cp > rs[m][2] THEN Bisect(rs, cp, m + 1, hi)
       ELSE TRUE
InRanges(rs, cp) == Bisect(rs, cp, 1, Len(rs))

RECURSIVE In(_,_)
In(x, cp) ==
  CASE x.k = "set"   -> \E i \in 1..Len(x.rs) : x.rs[i][1] <= cp /\ cp <= x.rs[i][2]
    [] x.k = "ucd"   -> InRanges(Ucd[x.n], cp)
    [] x.k = "not"   -> ~In(x.c, cp)
    [] x.k = "alt"   -> \E i \in 1..Len(x.cs) : In(x.cs[i], cp)
    [] x.k = "and"   -> \A i \in 1..Len(x.cs) : In(x.cs[i], cp)
    [] x.k = "minus" -> In(x.a, cp) /\ ~In(x.b, cp)

(* where membership may change *)
RECURSIVE Edges(_)
Edges(x) ==
  CASE x.k = "set"   -> UNION {{x.rs[i][1], x.rs[i][2] + 1} : i \in 1..Len(x.rs)}
    [] x.k = "ucd"   -> LET r == Ucd[x.n] IN UNION {{r[i][1], r[i][2] + 1} : i \in 1..Len(r)}
    [] x.k = "not"   -> Edges(x.c)
    [] x.k = "alt"   -> UNION {Edges(x.cs[i]) : i \in 1..Len(x.cs)}
    [] x.k = "and"   -> UNION {Edges(x.cs[i]) : i \in 1..Len(x.cs)}
    [] x.k = "minus" -> Edges(x.a) \cup Edges(x.b)

Scalar(cp) == cp \in 0..55295 \/ cp \in 57344..1114111
(* what an encoding can express at all: bytes in the byte-like ones *)
Expressible(e, cp) == CASE e = "ascii" -> cp <= 127
                        [] e \in {"default", "byte"} -> cp <= 255
                        [] OTHER -> Scalar(cp)

(* every code point the class accepts, as the observed ranges; the first edge at which they differ, or none *)
EnumOk(x, e, rs) ==
  LET B == (Edges(x) \cup UNION {{rs[i][1], rs[i][2] + 1} : i \in 1..Len(rs)} \cup {0, 128, 256, 55296, 57344, 1114112}) IN
  { b \in B : (Expressible(e, b) /\ In(x, b)) # InRanges(rs, b) }

(* how much of the input a run of the class takes from position p *)
RECURSIVE RunEnd(_,_,_,_)
RunEnd(x, e, inp, p) ==
  LET d == Decode(e, inp, p) IN
  IF d.ok /\ In(x, d.cp) THEN RunEnd(x, e, inp, d.end) ELSE p

Pairs(o) == [i \in 1..(Len(o) \div 2) |-> <<o[2*i-1], o[2*i]>>]
B2(b) == IF b THEN 1 ELSE 0

(* the general category, as an index into this list *)
Cats == <<"Lu","Ll","Lt","Lm","Lo","Mn","Mc","Me","Nd","Nl","No","Pc","Pd","Ps","Pe","Pi","Pf","Po","Sm","Sc","Sk","So","Zs","Zl","Zp","Cc","Cf","Cs","Co","Cn">>

Expectation(ob) ==
  LET c == Cls[ob.k] IN
  CASE ob.f = "enum" ->
         LET bad == EnumOk(c.x, ob.e, Pairs(ob.o)) IN
         IF bad = {} THEN ob.o ELSE <<-1, Min(bad)>>
    [] ob.f = "name" -> <<c.n>>
    [] ob.f = "run" ->                     \* identifier, delimited text, token
         LET r == RunEnd(c.x, ob.e, ob.i, 0)
             d == Decode(ob.e, ob.i, 0)
             one == IF d.ok /\ In(c.x, d.cp) THEN d.end ELSE -1
         IN <<r, r, one>>
    [] ob.f = "gc" ->                      \* all code points of one category
         LET rs == Pairs(ob.o) want == Ucd[Cats[ob.k + 0]]
             more == IF Cats[ob.k] = "Cn" THEN <<1114112, 1114112 + 1023>> ELSE <<>>
             w == IF more = <<>> THEN want ELSE Append(SubSeq(want, 1, Len(want) - 1), <<want[Len(want)][1], more[2]>>)
         IN [i \in 1..(2 * Len(w)) |-> w[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]]
    [] ob.f = "fold" ->                    \* <<lo, hi, folded lo>> for all that fold to something else
         LET f == Ucd["fold"] IN [i \in 1..(3 * Len(f)) |-> f[(i + 2) \div 3][((i - 1) % 3) + 1]]
    [] ob.f = "pred" ->                    \* predicates of a code point
         LET v == ob.i[1] IN
         <<B2(v <= 127), B2(v <= 65535), B2(v <= 1114111), B2(v <= 31 \/ v \in 127..159), B2(IsSurr(v)),
           B2(v \in 57344..63743 \/ v \in 983040..1048573 \/ v \in 1048576..1114109),
           B2(v <= 1114111 /\ (v \in 64976..65007 \/ v % 65536 >= 65534)), B2(Scalar(v))>>
=============================================================================
