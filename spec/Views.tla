-------------------------------- MODULE Views --------------------------------
(* What each action shows of a run of the machine: folds over its event log. *)
(*   match          did the run succeed without any error                     *)
(*   validate/parse the errors, each with its production context, and a status*)
(*   parse_as_tree  the parse tree                                            *)
(*   trace          the lines of the trace                                    *)
EXTENDS Machine, Vis, SequencesExt

IsTransp(c, n) == "transp" \in DOMAIN c.prods[n] /\ c.prods[n].transp

(* -------------------------------------------------------------- errors --- *)
ErrText(e) ==
  CASE e[2] = "lit" -> "lit " \o e[5] \o " " \o ToString(e[3]) \o "+" \o ToString(e[4] - e[3])
    [] e[2] = "kw"  -> "kw " \o e[5] \o " " \o ToString(e[3]) \o "-" \o ToString(e[4])
    [] e[2] = "cc"  -> "cc " \o e[5] \o " " \o ToString(e[3])
    [] OTHER        -> e[2] \o " " \o ToString(e[3]) \o "-" \o ToString(e[4])

(* the production an error is reported for: transparent ones defer to their parent *)
RECURSIVE CtxName(_,_)
CtxName(c, ps) ==
  IF Len(ps) > 1 /\ IsTransp(c, ps[1][1]) THEN CtxName(c, Tail(ps)) ELSE ps[1][1]

RECURSIVE ErrFold(_,_,_,_,_)
ErrFold(c, log, i, ps, acc) ==
  IF i > Len(log) THEN acc
  ELSE LET e == log[i] IN
    CASE e[1] = "ps" -> ErrFold(c, log, i+1, << <<e[2], e[3]>> >> \o ps, acc)
      [] e[1] \in {"pf","pc"} -> ErrFold(c, log, i+1, Tail(ps), acc)
      [] e[1] = "err" -> ErrFold(c, log, i+1, ps,
             Append(acc, ErrText(e) \o " in " \o CtxName(c, ps) \o "@" \o ToString(ps[1][2])))
      [] OTHER -> ErrFold(c, log, i+1, ps, acc)
Errors(c, s) == ErrFold(c, s.log, 1, <<>>, <<>>)

RECURSIVE JoinWith(_,_,_)
JoinWith(xs, sep, i) ==
  IF i > Len(xs) THEN "" ELSE (IF i = 1 THEN "" ELSE sep) \o xs[i] \o JoinWith(xs, sep, i+1)

Status(s) == IF ~HasErr(s.log) THEN "ok" ELSE IF s.m = "ok" THEN "recovered" ELSE "fatal"

(* ---------------------------------------------------------------- tree --- *)
(* a node: [t: "T"/"P", k: kind or name, a, b, n: number of nodes, d: depth, q: its traversal]  *)
TokNode(k, a, b) == [t |-> "T", k |-> k, a |-> a, b |-> b, n |-> 1, d |-> 0, kids |-> <<>>,
                     q |-> "<" \o k \o " " \o ToString(a) \o " " \o ToString(b) \o ">"]
RECURSIVE Cat(_,_)
Cat(kids, i) == IF i > Len(kids) THEN "" ELSE kids[i].q \o Cat(kids, i+1)
RECURSIVE SumN(_,_)
SumN(kids, i) == IF i > Len(kids) THEN 0 ELSE kids[i].n + SumN(kids, i+1)
RECURSIVE MaxD(_,_)
MaxD(kids, i) == IF i > Len(kids) THEN 0 ELSE Max2(kids[i].d + 1, MaxD(kids, i+1))
PrdNode(c, k, kids) ==
  [t |-> "P", k |-> k, a |-> 0, b |-> 0, n |-> 1 + SumN(kids, 1), d |-> MaxD(kids, 1), kids |-> kids,
   q |-> "{" \o k \o (IF k \in DOMAIN c.prods /\ c.prods[k].tok THEN "!" ELSE "") \o " " \o Cat(kids, 1) \o "}"]

DroppedIfEmpty == {"token", "error token", "whitespace"}

AddKid(st, node) == [st EXCEPT !.ks[1] = Append(@, node)]
AddTok(st, k, a, b) ==
  IF a = b /\ k \in DroppedIfEmpty THEN st
  ELSE LET kids == st.ks[1] IN
       IF k = "error token" /\ kids # <<>> /\ kids[Len(kids)].k = "error token" /\ kids[Len(kids)].t = "T"
       THEN [st EXCEPT !.ks[1][Len(kids)] = TokNode(k, kids[Len(kids)].a, b)]
       ELSE AddKid(st, TokNode(k, a, b))

(* st: ks: children lists, innermost first; ps: open productions <<name, begin>>, innermost first *)
TreeEv(c, st, e) ==
  CASE e[1] = "ps" ->
         LET st1 == [st EXCEPT !.ps = << <<e[2], e[3]>> >> \o @] IN
         IF st.ps = <<>> \/ IsTransp(c, e[2]) THEN st1 ELSE [st1 EXCEPT !.ks = << <<>> >> \o @]
    [] e[1] = "pf" ->
         LET b == st.ps[1][2]  n == st.ps[1][1]  st1 == [st EXCEPT !.ps = Tail(@)] IN
         LET st2 == IF st1.ks[1] = <<>> THEN AddTok(st1, "position", b, b) ELSE st1 IN
         IF st2.ps = <<>> \/ IsTransp(c, n) THEN st2
         ELSE [st2 EXCEPT !.ks = << Append(st2.ks[2], PrdNode(c, n, st2.ks[1])) >> \o SubSeq(@, 3, Len(@))]
    [] e[1] = "pc" ->
         LET b == st.ps[1][2]  n == st.ps[1][1]  st1 == [st EXCEPT !.ps = Tail(@)] IN
         IF st1.ps = <<>> \/ IsTransp(c, n) THEN st1
         ELSE AddTok([st1 EXCEPT !.ks = Tail(@)], "error token", b, e[3])
    [] e[1] = "os" -> [st EXCEPT !.ks = << <<>> >> \o @]
    [] e[1] = "oo" -> [st EXCEPT !.ks[1] = <<PrdNode(c, e[2], @)>>]
    [] e[1] = "of" -> [st EXCEPT !.ks = << st.ks[2] \o st.ks[1] >> \o SubSeq(@, 3, Len(@))]
    [] e[1] = "tok" -> AddTok(st, e[2], e[3], e[4])
    [] OTHER -> st

RECURSIVE TreeFold(_,_,_,_)
TreeFold(c, log, i, st) == IF i > Len(log) THEN st ELSE TreeFold(c, log, i+1, TreeEv(c, st, log[i]))

Tree(c, s) == PrdNode(c, c.root, TreeFold(c, s.log, 1, [ks |-> << <<>> >>, ps |-> <<>>]).ks[1])

TreeView(c, s) ==
  IF s.m # "ok" THEN <<"T0">>
  ELSE LET t == Tree(c, s) IN
       <<"T" \o t.q, "S" \o ToString(t.n) \o " " \o ToString(t.d) \o " " \o ToString(s.p) \o "-" \o ToString(Len(c.inp))>>

(* the same tree as its traversal, computed without building it: for large ones *)
(* st: q the traversal; fr: open frames [i: length of q before its first child, *)
(* e: length of q before it], innermost first; ps as above                      *)
SeqTok(st, k, a, b) ==
  IF a = b /\ k \in DroppedIfEmpty THEN st
  ELSE LET n == Len(st.q) IN
       IF k = "error token" /\ n > st.fr[1].i /\ st.q[n][1] = "<" /\ st.q[n][2] = k
       THEN [st EXCEPT !.q[n] = <<"<", k, st.q[n][3], b>>]
       ELSE [st EXCEPT !.q = Append(@, <<"<", k, a, b>>)]
SeqEv(c, st, e) ==
  CASE e[1] = "ps" ->
         LET st1 == [st EXCEPT !.ps = << <<e[2], e[3]>> >> \o @] IN
         IF st.ps # <<>> /\ IsTransp(c, e[2]) THEN st1
         ELSE [st1 EXCEPT !.fr = << [i |-> Len(st.q) + 1, e |-> Len(st.q)] >> \o @, !.q = Append(@, <<"{", e[2], 0, 0>>)]
    [] e[1] = "pf" ->
         LET b == st.ps[1][2]  n == st.ps[1][1]
             st1 == IF Len(st.q) = st.fr[1].i THEN SeqTok(st, "position", b, b) ELSE st
             st2 == [st1 EXCEPT !.ps = Tail(@)] IN
         IF st2.ps # <<>> /\ IsTransp(c, n) THEN st2
         ELSE [st2 EXCEPT !.q = Append(@, <<"}", n, 0, 0>>), !.fr = Tail(@)]
    [] e[1] = "pc" ->
         LET b == st.ps[1][2]  n == st.ps[1][1]  st1 == [st EXCEPT !.ps = Tail(@)] IN
         IF st1.ps = <<>> \/ IsTransp(c, n) THEN st1
         ELSE SeqTok([st1 EXCEPT !.q = SubSeq(@, 1, st.fr[1].e), !.fr = Tail(@)], "error token", b, e[3])
    [] e[1] = "os" -> [st EXCEPT !.fr = << [i |-> Len(st.q), e |-> Len(st.q)] >> \o @]
    [] e[1] = "oo" -> [st EXCEPT !.q = Append(SubSeq(@, 1, st.fr[1].i) \o << <<"{", e[2], 0, 0>> >> \o SubSeq(@, st.fr[1].i + 1, Len(@)), <<"}", e[2], 0, 0>>)]
    [] e[1] = "of" -> [st EXCEPT !.fr = Tail(@)]
    [] e[1] = "tok" -> SeqTok(st, e[2], e[3], e[4])
    [] OTHER -> st
TreeSeq(c, s) == FoldLeft(LAMBDA st, e : SeqEv(c, st, e), [q |-> <<>>, fr |-> <<>>, ps |-> <<>>], s.log).q
SeqShow(x) == IF x[1] = "<" THEN "<" \o x[2] \o " " \o ToString(x[3]) \o " " \o ToString(x[4]) \o ">" ELSE IF x[1] = "{" THEN "{" \o x[2] ELSE "}"
SeqDepth(q) == FoldLeft(LAMBDA a, x : IF x[1] = "{" THEN [d |-> a.d + 1, m |-> Max2(a.m, a.d)] ELSE IF x[1] = "}" THEN [a EXCEPT !.d = @ - 1] ELSE [a EXCEPT !.m = Max2(@, a.d)], [d |-> 0, m |-> 0], q).m
TreeSeqView(c, s) ==
  IF s.m # "ok" THEN <<"T0">>
  ELSE LET q == TreeSeq(c, s) IN
       <<"S" \o ToString(Cardinality({i \in 1..Len(q) : q[i][1] # "}"})) \o " " \o ToString(SeqDepth(q)) \o " " \o ToString(s.p) \o "-" \o ToString(Len(c.inp))>>
       \o [i \in 1..Len(q) |-> SeqShow(q[i])]

(* --------------------------------------------------------------- trace --- *)
Pad(n, w) ==
  LET t == ToString(n)
      digits == IF n < 10 THEN 1 ELSE IF n < 100 THEN 2 ELSE IF n < 1000 THEN 3 ELSE 4
  IN (IF digits + 2 = w THEN "  " ELSE IF digits + 1 = w THEN " " ELSE "") \o t
TrPrefix(c, o, p, d, mark) ==
  LET lc == IF c.enc = "byte" THEN <<(p \div 16) + 1, (p % 16) + 1>> ELSE LineCol(c.inp, p) IN
  Col(o, "2") \o Pad(lc[1], 2) \o ":" \o Pad(lc[2], 3) \o ": " \o Reset(o)
  \o (IF d > 0 THEN Times(IF o.u THEN "{E2}{94}{82}  " ELSE "  ", d - 1) \o mark ELSE "")
TrMark(o) == IF o.u THEN "{E2}{94}{9C}{E2}{94}{80}{E2}{94}{80}" ELSE "- "
TrFin(o)  == IF o.u THEN "{E2}{94}{B4}" ELSE "- finish"
TrCan(o)  == (IF o.u THEN "{E2}{94}{94}" ELSE "-") \o Col(o, "33") \o (IF o.u THEN "{E2}{95}{B3}" ELSE "x") \o Reset(o)
TrName(o, n) == Col(o, "1") \o n \o Reset(o)
TrOpen(o, d) == IF d = o.d THEN " " \o Ellipsis(o) ELSE ""

(* a literal named by an error: c.lits gives its code units *)
TrLit(c, o, x) == IF o = DefOpt THEN x ELSE VText(o, c.enc, c.lits[x])
TrErr(c, o, e) ==
  CASE e[2] = "lit" -> "expected '" \o TrLit(c, o, e[5]) \o "'"
    [] e[2] = "kw" -> "expected keyword '" \o TrLit(c, o, e[5]) \o "'"
    [] e[2] = "cc" -> "expected " \o e[5]
    [] OTHER -> e[2]

(* one line, or "" *)
TrLine(c, o, e, d) ==
  LET L(mark, rest) == TrPrefix(c, o, e[3], d, mark) \o rest
      E(rest) == L(TrMark(o), rest)
  IN
  CASE e[1] = "ps" -> E(TrName(o, e[2]) \o ":" \o TrOpen(o, d))
    [] e[1] = "os" -> E(TrName(o, "operation chain") \o ":" \o TrOpen(o, d))
    [] e[1] = "rs" -> E(Col(o, "33;1") \o "error recovery" \o Reset(o) \o Col(o, "33") \o ":" \o Reset(o) \o TrOpen(o, d))
    [] e[1] \in {"pf","of","rf"} -> L(TrFin(o), "")
    [] e[1] \in {"pc","rc"} -> L(TrCan(o), "")
    [] e[1] = "oo" -> E(TrName(o, "operation") \o ": " \o e[2])
    [] e[1] = "tok" ->
         IF e[3] = e[4] /\ e[2] \in DroppedIfEmpty THEN ""
         ELSE E(TrName(o, e[2]) \o (IF e[3] = e[4] THEN "" ELSE ": " \o VLex([o EXCEPT !.sp = TRUE], c.enc, c.inp, e[3], e[4])))
    [] e[1] = "bt" ->
         IF e[3] = e[4] THEN ""
         ELSE E(Col(o, "33;1") \o "backtracked" \o Reset(o) \o ": " \o Col(o, "33")
                \o VLex([o EXCEPT !.sp = TRUE, !.c = FALSE], c.enc, c.inp, e[3], e[4]) \o Reset(o))
    [] e[1] = "err" -> E(Col(o, "31;1") \o "error" \o Reset(o) \o Col(o, "31") \o ": " \o TrErr(c, o, e) \o Reset(o))
    [] e[1] = "dbg" -> E(Col(o, "34;1") \o "debug" \o Reset(o) \o Col(o, "34") \o ": " \o e[2] \o Reset(o))

(* what is deeper than the maximal depth is not shown *)
RECURSIVE TrFold(_,_,_,_,_,_)
TrFold(c, o, log, i, d, acc) ==
  IF i > Len(log) THEN acc
  ELSE LET e == log[i]
           l == IF d > o.d THEN "" ELSE TrLine(c, o, e, d)
           d1 == IF e[1] \in {"ps","os","rs"} THEN d + 1
                 ELSE IF e[1] \in {"pf","of","rf","pc","rc"} THEN d - 1 ELSE d
       IN TrFold(c, o, log, i+1, d1, IF l = "" THEN acc ELSE Append(acc, l))
TraceView(c, s) == TrFold(c, DefOpt, s.log, 1, 0, <<>>)

(* traces and tree visualisations under further options *)
TreeIndent(o, lasts, i) == IF lasts[i] /\ o.u THEN "   " ELSE IF o.u THEN "{E2}{94}{82}  " ELSE "  "
RECURSIVE Indents(_,_,_)
Indents(o, lasts, i) == IF i > Len(lasts) THEN "" ELSE TreeIndent(o, lasts, i) \o Indents(o, lasts, i+1)
TreePrefix(o, lasts) ==    \* lasts: for each level below the root, is the node there the last child
  IF lasts = <<>> THEN ""
  ELSE Col(o, "2") \o Indents(o, SubSeq(lasts, 1, Len(lasts)-1), 1)
       \o (IF ~o.u THEN "- " ELSE IF lasts[Len(lasts)] THEN "{E2}{94}{94}{E2}{94}{80}{E2}{94}{80}" ELSE "{E2}{94}{9C}{E2}{94}{80}{E2}{94}{80}")
       \o Reset(o)
RECURSIVE TreeLines(_,_,_,_)
RECURSIVE KidLines(_,_,_,_,_)
TreeLines(c, o, node, lasts) ==
  IF Len(lasts) > o.d THEN <<>>
  ELSE LET head == TreePrefix(o, lasts) \o Col(o, "1") \o node.k \o Reset(o) IN
       IF node.t = "T" THEN << head \o (IF node.a = node.b THEN "" ELSE ": " \o VLex([o EXCEPT !.sp = TRUE], c.enc, c.inp, node.a, node.b)) >>
       ELSE IF Len(lasts) = o.d THEN << head \o ": " \o Ellipsis(o) >>
       ELSE << head \o ":" >> \o KidLines(c, o, node.kids, 1, lasts)
KidLines(c, o, kids, i, lasts) ==
  IF i > Len(kids) THEN <<>>
  ELSE TreeLines(c, o, kids[i], Append(lasts, i = Len(kids))) \o KidLines(c, o, kids, i+1, lasts)

RECURSIVE OptView(_,_,_)
OptView(c, s, i) ==
  IF i > Len(c.topts) THEN <<>>
  ELSE LET o == c.topts[i] IN
       <<"O" \o ToString(i)>> \o TrFold(c, o, s.log, 1, 0, <<>>)
       \o (IF s.m = "ok" THEN TreeLines(c, o, Tree(c, s), <<>>) ELSE <<>>)
       \o OptView(c, s, i+1)

(* ------------------------------------------------------------- outcome --- *)
TreeOutcome(c, s) == <<"V" \o Status(s) \o " " \o JoinWith(Errors(c, s), "; ", 1)>> \o TreeSeqView(c, s)
Outcome(c, s) ==
  LET errs == JoinWith(Errors(c, s), "; ", 1)
      st == Status(s)
  IN <<"M" \o (IF st = "ok" THEN "1" ELSE "0"),
       "V" \o st \o " " \o errs,
       "P" \o st \o " " \o errs,
       "=" \o (IF s.m = "ok" THEN s.val ELSE "")>>
     \o TreeView(c, s) \o TraceView(c, s) \o OptView(c, s, 1)

(* --------------------------------------------- what must hold of any run -- *)
(* checked by TLC on the final state of every run it makes (Conform.tla) and   *)
(* on every intermediate state of the runs of MC.tla                           *)

(* productions, operation chains and recoveries are properly nested *)
RECURSIVE Nested(_,_,_)
Nested(log, i, st) ==
  IF i > Len(log) THEN st = <<>>
  ELSE CASE log[i][1] \in {"ps","os","rs"} -> Nested(log, i+1, <<log[i]>> \o st)
         [] log[i][1] \in {"pf","pc"} -> st # <<>> /\ st[1][1] = "ps" /\ st[1][2] = log[i][2] /\ log[i][3] >= st[1][3] /\ Nested(log, i+1, Tail(st))
         [] log[i][1] \in {"rf","rc"} -> st # <<>> /\ st[1][1] = "rs" /\ log[i][3] >= st[1][3] /\ Nested(log, i+1, Tail(st))
         [] log[i][1] = "of" -> st # <<>> /\ st[1][1] = "os" /\ log[i][3] >= st[1][3] /\ Nested(log, i+1, Tail(st))
         [] OTHER -> Nested(log, i+1, st)

(* every token begins where the one before it ended: nothing consumed is      *)
(* missing from the tree, nothing is there twice                               *)
RECURSIVE Tiles(_,_,_)
Tiles(log, i, p) ==    \* the end of the tokens, or -1
  IF i > Len(log) THEN p
  ELSE IF log[i][1] = "tok" THEN (IF log[i][3] = p /\ log[i][4] >= p THEN Tiles(log, i+1, log[i][4]) ELSE -1)
  ELSE Tiles(log, i+1, p)

InBounds(log, n) == \A i \in 1..Len(log) : 0 <= log[i][3] /\ log[i][3] <= log[i][4] /\ log[i][4] <= n

(* the leaves of the tree of the input, in order, give the consumed input back *)
RECURSIVE Leaves(_,_)
Leaves(kids, p) ==
  IF kids = <<>> THEN p
  ELSE LET k == Head(kids) IN IF k.a = p /\ k.b >= p THEN Leaves(Tail(kids), k.b) ELSE -1

(* the scan action shows the errors and what the calls to the scanner showed *)
ScanOutcome(c, s) == <<"V" \o Status(s) \o " " \o JoinWith(Errors(c, s), "; ", 1), s.val>>

FinalSound(c, s) ==
  /\ Nested(s.log, 1, <<>>)
  /\ InBounds(s.log, Len(c.inp))
  /\ Tiles(s.log, 1, 0) \in {s.p} \union (IF s.m = "ok" THEN {} ELSE 0..s.p)
  /\ s.dep = 0 /\ s.w
  /\ s.m = "bad" => HasErr(s.log)
=============================================================================
