------------------------------- MODULE Report -------------------------------
(* What the diagnostics of lexy_ext look like: messages, paths, and source     *)
(* lines with an annotated range.                                              *)
EXTENDS Vis, Lines

Kinds == << <<"error: ", "31;1">>, <<" warn: ", "33;1">>, <<" note: ", "1">>, <<" info: ", "1">>, <<"debug: ", "1">>, <<"fixit: ", "1">>, <<" help: ", "1">> >>
EOL == "{0A}"
Message(o, kind, text) == Col(o, Kinds[kind][2]) \o Kinds[kind][1] \o Reset(o) \o text \o EOL
Path(o, path) == Col(o, "34") \o path \o Reset(o) \o EOL
Bar(o) == IF o.u THEN "{E2}{94}{82}" ELSE "|"
Gap(o) == "     " \o Bar(o) \o EOL
LineNr(n) == (IF n < 10 THEN "   " ELSE IF n < 100 THEN "  " ELSE IF n < 1000 THEN " " ELSE "") \o ToString(n) \o " "
Under(o, primary) == Col(o, IF primary THEN "31;1" ELSE "33")

(* the line of l, the range from l to end underlined; text belongs to it       *)
Annotate(o, c, e, inp, l, end, primary, text) ==
  LET a == Annot(c, e, inp, l, end)
      before == SubSeq(inp, a[1] + 1, a[2])
      range  == SubSeq(inp, a[2] + 1, a[3])
      after  == SubSeq(inp, a[3] + 1, a[4])
      w == WFrom(Plain(o), e, range, 0, 0)
      \* nothing to underline, or the range continues after the end of the text
      more == w = 0 \/ (a[5] = 1 /\ a[6] = 0)
  IN Col(o, "34") \o LineNr(l.line) \o Reset(o) \o Bar(o) \o " "
     \o VText(o, e, before) \o Under(o, primary) \o VText(Plain(o), e, range) \o Reset(o) \o VText(o, e, after) \o EOL
     \o "     " \o Bar(o) \o " " \o Times(" ", WFrom(Plain(o), e, before, 0, 0))
     \o Under(o, primary) \o Times(IF primary THEN "^" ELSE "~", w + (IF more THEN 1 ELSE 0)) \o " " \o text \o EOL \o Reset(o)

(* an error: begin, end and text; the production it is in and where that began *)
ErrorReport(o, e, inp, path, prod, start, b, end, text) ==
  LET c == IF e = "byte" THEN "16" ELSE "unit"
      from == Loc(c, e, inp, start)
      at == Loc(c, e, inp, b)
  IN Message(o, 1, "while parsing " \o prod) \o (IF path = "" THEN "" ELSE Path(o, path)) \o Gap(o)
     \o (IF at.line = from.line THEN "" ELSE Annotate(o, c, e, inp, from, start + 1, FALSE, "beginning here") \o Gap(o))
     \o Annotate(o, c, e, inp, at, end, TRUE, text)
=============================================================================
