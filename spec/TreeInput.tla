------------------------------ MODULE TreeInput ------------------------------
(* Parsing a parse tree: rules on sequences of sibling nodes, and on the text  *)
(* of one token. A tree is a node [t, n, b, e, c]: token or production, kind,  *)
(* begin and end, children.                                                    *)
EXTENDS Text, Calls, SequencesExt
Err(n, b, e) == <<n, b, e>>
R(ok, rest, errs) == [ok |-> ok, rest |-> rest, errs |-> errs]
Pos(rest, end) == IF rest = <<>> THEN end ELSE Head(rest).b
Heads(r, nd) == CASE r.k \in {"tn", "tnr"} -> nd.t /\ nd.n = r.n [] OTHER -> ~nd.t /\ nd.n = r.n
Starts(r, rest) == rest # <<>> /\ Heads(r, Head(rest))

(* the text of a token: [p, e) of the input x *)
RECURSIVE Same(_,_,_,_,_)
Same(x, l, p, e, i) == IF i < Len(l) /\ p + i < e /\ x[p + i + 1] = l[i + 1] THEN Same(x, l, p, e, i + 1) ELSE i
IsDigit(u) == u \in 48..57
RECURSIVE DigitEnd(_,_,_)
DigitEnd(x, p, e) == IF p < e /\ IsDigit(x[p + 1]) THEN DigitEnd(x, p + 1, e) ELSE p
TextRule(r, x, p, e) ==      \* [ok, rest: position, errs]
  CASE r.k = "lit" -> LET n == Same(x, r.l, p, e, 0) IN IF n = Len(r.l) THEN R(TRUE, p + n, <<>>) ELSE R(FALSE, p, <<Err("literal", p, n)>>)
    [] r.k = "digits" -> LET q == DigitEnd(x, p, e) IN IF q > p THEN R(TRUE, q, <<>>) ELSE R(FALSE, p, <<Err("ASCII.digit", p, p)>>)
    [] r.k = "text" -> LET a == Same(x, r.l, p, e, 0) IN     \* literal, then digits
         IF a < Len(r.l) THEN R(FALSE, p, <<Err("literal", p, a)>>)
         ELSE LET q == DigitEnd(x, p + a, e) IN IF q > p + a THEN R(TRUE, q, <<>>) ELSE R(FALSE, p + a, <<Err("ASCII.digit", p + a, p + a)>>)

RECURSIVE Run(_,_,_,_), RunSeq(_,_,_,_), RunLoop(_,_,_,_,_)
Run(r, x, rest, end) ==      \* end: the end of the parent
  CASE r.k \in {"tn", "pn"} -> IF Starts(r, rest) THEN R(TRUE, Tail(rest), <<>>) ELSE R(FALSE, rest, <<Err(r.n, Pos(rest, end), Pos(rest, end))>>)
    [] r.k = "tnr" ->
         IF ~Starts(r, rest) THEN R(FALSE, rest, <<Err(r.n, Pos(rest, end), Pos(rest, end))>>)
         ELSE LET nd == Head(rest)  t == TextRule(r.r, x, nd.b, nd.e) IN
              IF ~t.ok THEN R(FALSE, Tail(rest), t.errs)
              ELSE R(TRUE, Tail(rest), t.errs \o (IF t.rest < nd.e THEN <<Err("expected token end", t.rest, Pos(Tail(rest), end))>> ELSE <<>>))
    [] r.k = "pnr" ->
         IF ~Starts(r, rest) THEN R(FALSE, rest, <<Err(r.n, Pos(rest, end), Pos(rest, end))>>)
         ELSE LET nd == Head(rest)  t == Run(r.r, x, nd.c, nd.e) IN
              IF ~t.ok THEN R(FALSE, Tail(rest), t.errs)
              ELSE R(TRUE, Tail(rest), t.errs \o (IF t.rest # <<>> THEN <<Err("expected production end", Head(t.rest).b, Pos(Tail(rest), end))>> ELSE <<>>))
    [] r.k = "seq" -> RunSeq(r.rs, x, rest, end)
    [] r.k = "alt" -> LET m == {i \in 1..Len(r.rs) : Starts(r.rs[i], rest)} IN
         IF m = {} THEN R(FALSE, rest, <<Err("exhausted choice", Pos(rest, end), Pos(rest, end))>>)
         ELSE Run(r.rs[CHOOSE i \in m : \A j \in m : i <= j], x, rest, end)
    [] r.k = "opt" -> IF Starts(r.r, rest) THEN Run(r.r, x, rest, end) ELSE R(TRUE, rest, <<>>)
    [] r.k = "while" -> RunLoop(r.r, x, rest, end, <<>>)
    [] r.k = "eof" -> IF rest = <<>> THEN R(TRUE, rest, <<>>) ELSE R(TRUE, rest, <<Err("expected EOF", Pos(rest, end), Pos(rest, end))>>)
RunSeq(rs, x, rest, end) ==
  IF rs = <<>> THEN R(TRUE, rest, <<>>)
  ELSE LET a == Run(Head(rs), x, rest, end) IN
       IF ~a.ok THEN a ELSE LET b == RunSeq(Tail(rs), x, a.rest, end) IN R(b.ok, b.rest, a.errs \o b.errs)
RunLoop(r, x, rest, end, errs) ==
  IF ~Starts(r, rest) THEN R(TRUE, rest, errs)
  ELSE LET a == Run(r, x, rest, end) IN IF a.ok THEN RunLoop(r, x, a.rest, end, errs \o a.errs) ELSE R(FALSE, a.rest, errs \o a.errs)
Expectation(ob) ==
  LET t == Run(ob.g, ob.x, ob.tree.c, ob.tree.e) IN
  <<IF ~t.ok THEN "fatal" ELSE IF t.errs = <<>> THEN "success" ELSE "recovered">> \o t.errs
=============================================================================
