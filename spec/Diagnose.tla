------------------------------ MODULE Diagnose ------------------------------
(* Calls of the diagnostic writer: annotations of arbitrary ranges.            *)
EXTENDS Report, Calls
Opt(ob) == [u |-> (ob.fl % 2) = 1, c |-> ((ob.fl \div 2) % 2) = 1, s |-> ((ob.fl \div 4) % 2) = 1, sp |-> ((ob.fl \div 8) % 2) = 1,
            d |-> 32, w |-> ob.w, tab |-> ob.tab]
Says(o) == "says " \o (IF o.u THEN "u" ELSE "") \o (IF o.c THEN "c" ELSE "") \o (IF o.s THEN "s" ELSE "") \o (IF o.sp THEN "p" ELSE "") \o ToString(o.w) \o " " \o ToString(o.tab)
Expectation(ob) ==
  LET o == Opt(ob)
      l == Loc(ob.k, ob.e, ob.i, ob.p)
  IN <<Message(o, ob.m, Says(o)), Path(o, ob.path), Gap(o),
       Annotate(o, ob.k, ob.e, ob.i, l, ob.q, ob.pr = 1, Says(Plain(o))),
       Annotate(o, ob.k, ob.e, ob.i, l, l.pos + ob.n, ob.pr = 1, Says(Plain(o)))>>
=============================================================================
