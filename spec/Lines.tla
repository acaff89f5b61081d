------------------------------- MODULE Lines --------------------------------
(* The input is cut into columns and newlines, one after the other; a line is  *)
(* what lies between two newlines. A location is the last column or newline    *)
(* that begins at or before the position.                                      *)
EXTENDS Text

(* how the cut goes: c is the counting: "unit", "cp" or the bytes per line *)
IsBytes(c) == c \notin {"unit", "cp"}
Width(c) == CASE c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "7" -> 7 [] OTHER -> 16
NewlineEnd(c, inp, line, p) ==          \* the end of the newline that begins at p, or -1
  IF p >= Len(inp) THEN -1
  ELSE IF IsBytes(c) THEN IF p - line = Width(c) - 1 THEN p + 1 ELSE -1
  ELSE IF inp[p+1] = 10 THEN p + 1
  ELSE IF inp[p+1] = 13 /\ Unit(inp, p + 1) = 10 THEN p + 2
  ELSE -1
ColumnEnd(c, e, inp, p) ==
  IF c = "cp" THEN LET d == Decode(e, inp, p) IN IF d.ok THEN d.end ELSE p + 1 ELSE p + 1

(* the location of p, counted from the beginning of a line *)
RECURSIVE From(_,_,_,_,_,_)
From(c, e, inp, p, at, col) ==          \* at: <<line number, begin of the line, begin of the column>>
  LET n == NewlineEnd(c, inp, at[2], at[3])
      m == ColumnEnd(c, e, inp, at[3]) IN
  IF at[3] = p THEN [line |-> at[1], lb |-> at[2], pos |-> at[3], col |-> col]
  ELSE IF n # -1 THEN IF n <= p THEN From(c, e, inp, p, <<at[1] + 1, n, n>>, 1) ELSE [line |-> at[1], lb |-> at[2], pos |-> at[3], col |-> col]
  ELSE IF m <= p THEN From(c, e, inp, p, <<at[1], at[2], m>>, col + 1)
  ELSE [line |-> at[1], lb |-> at[2], pos |-> at[3], col |-> col]
Loc(c, e, inp, p) == From(c, e, inp, p, <<1, 0, 0>>, 1)

(* the line that begins at lb: the end of its text and the end of its newline *)
RECURSIVE LineEnd(_,_,_,_,_)
LineEnd(c, e, inp, lb, p) ==
  IF p >= Len(inp) THEN <<p, p>>
  ELSE LET n == NewlineEnd(c, inp, lb, p) IN
       IF n # -1 THEN <<p, n>> ELSE LineEnd(c, e, inp, lb, ColumnEnd(c, e, inp, p))

Cont(e, u) == CASE e = "utf8" -> u \in 128..191 [] e = "utf16" -> u \in 56320..57343 [] OTHER -> FALSE
RECURSIVE Boundary(_,_,_,_)
Boundary(e, inp, p, end) == IF p < end /\ Cont(e, inp[p+1]) THEN Boundary(e, inp, p + 1, end) ELSE p

B(x) == IF x THEN 1 ELSE 0
(* what annotating [l.pos, end) shows *)
Annot(c, e, inp, l, end) ==
  LET le == LineEnd(c, e, inp, l.lb, l.lb)
      multi == end > le[2]
      \* an empty range stands for what is there: a newline or a code unit
      e1 == IF l.pos = end THEN (IF end = le[1] THEN le[2] ELSE Min2(end + 1, le[2])) ELSE Min2(end, le[2])
      \* whole code points only
      e2 == Boundary(e, inp, e1, le[2])
      nl == e2 > le[1]
      last == IF nl THEN le[2] ELSE e2
  IN <<l.lb, l.pos, last, IF nl THEN le[2] ELSE le[1], B(multi), B(nl), B(e2 # e1)>>

Show(l) == <<l.line, l.col, l.pos>>
Compare(a, b) == LET lt == a.line < b.line \/ (a.line = b.line /\ a.col < b.col)
                     eq == a.line = b.line /\ a.col = b.col
                 IN 32*B(eq) + 16*B(~eq) + 8*B(lt) + 4*B(lt \/ eq) + 2*B(~lt /\ ~eq) + B(~lt)

=============================================================================
