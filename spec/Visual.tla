-------------------------------- MODULE Visual --------------------------------
(* Visualisation of code points and lexemes on their own: what is written, and *)
(* how many columns it takes.                                                  *)
EXTENDS Vis, Calls
Opt(ob) == [u |-> (ob.fl % 2) = 1, c |-> ((ob.fl \div 2) % 2) = 1, s |-> ((ob.fl \div 4) % 2) = 1, sp |-> ((ob.fl \div 8) % 2) = 1,
            d |-> 32, w |-> ob.w, tab |-> ob.tab]
\* code points: a run of them, each with its width
RECURSIVE Cps(_,_,_)
Cps(o, cp, n) == IF n = 0 THEN <<>> ELSE <<VCp(o, cp), ToString(CpWidth(o, cp))>> \o Cps(o, cp + 1, n - 1)
Expectation(ob) ==
  LET o == Opt(ob) IN
  CASE ob.f = "cp"      -> Cps(o, ob.cp, ob.n)
    [] ob.f = "invalid" -> <<Special(o, IF o.u THEN "U+????" ELSE "u????"), ToString(SpecialWidth(o, IF o.u THEN 6 ELSE 5))>>
    [] ob.f = "lex"     -> <<VText(o, ob.e, ob.i), ToString(WFrom(Plain(o), ob.e, ob.i, 0, 0))>>
=============================================================================
