-------------------------------- MODULE Trees --------------------------------
(* Parse trees built by hand: the builder as a stack of nodes under            *)
(* construction, and what a finished tree shows of its nodes.                  *)
EXTENDS Hist, FiniteSets, SequencesExt
Tok(k, b, e) == [t |-> TRUE, n |-> k, b |-> b, e |-> e]
Prod(n, cs) == [t |-> FALSE, n |-> n, c |-> cs]

(* a frame is a node under construction: a production or a container;         *)
(* a transparent production has a frame without content of its own            *)
Frame(k, n) == [k |-> k, n |-> n, c |-> <<>>]
None == [m |-> "none"]          \* no tree object
Blank == [m |-> "empty"]        \* a tree without nodes
Moved == [m |-> "moved"]        \* moved-from: may be destroyed, assigned, cleared or re-used
Start(ob) == [bs |-> <<>>, trees |-> <<None, None>>]

(* the active node: transparent productions have none *)
Active(bs) == CHOOSE i \in 1..Len(bs) : bs[i].k # "through" /\ \A j \in (i+1)..Len(bs) : bs[j].k = "through"
Add(bs, cs) == LET a == Active(bs) IN [bs EXCEPT ![a].c = @ \o cs]
Pop(bs) == SubSeq(bs, 1, Len(bs) - 1)
IgnoreEmpty(k) == k \in {"token", "error token", "whitespace"}
AddToken(bs, k, b, e) ==
  LET cs == bs[Active(bs)].c IN
  IF IgnoreEmpty(k) /\ b = e THEN bs
  ELSE IF k = "error token" /\ cs # <<>> /\ Last(cs).t /\ Last(cs).n = "error token"
       THEN LET a == Active(bs) IN [bs EXCEPT ![a].c = Front(cs) \o <<[Last(cs) EXCEPT !.e = e]>>]
  ELSE Add(bs, <<Tok(k, b, e)>>)
Build(bs, op) ==
  LET top == bs[Len(bs)] IN
  CASE op.f = "sp" -> Append(bs, Frame("prod", op.n))
    [] op.f = "st" -> Append(bs, Frame("through", op.n))
    [] op.f = "fp" -> IF top.k = "through" THEN Pop(bs) ELSE Add(Pop(bs), <<Prod(top.n, top.c)>>)
    [] op.f = "cp" -> Pop(bs)
    [] op.f = "sc" -> Append(bs, Frame("cont", ""))
    [] op.f = "scp" -> [bs EXCEPT ![Len(bs)].c = <<Prod(op.n, top.c)>>]
    [] op.f = "sct" -> bs
    [] op.f = "fc" -> Add(Pop(bs), top.c)
    [] op.f = "cc" -> Pop(bs)
    [] op.f = "tok" -> AddToken(bs, op.n, op.b, op.e)

(* ---- what a tree shows ---- *)
RECURSIVE Flat(_,_,_,_), FlatKids(_,_,_,_)
Flat(nd, par, dep, k) ==
  IF nd.t THEN <<[t |-> TRUE, n |-> nd.n, b |-> nd.b, e |-> nd.e, par |-> par, dep |-> dep, kids |-> <<>>]>>
  ELSE LET ks == FlatKids(nd.c, k, dep + 1, k + 1) IN
       <<[t |-> FALSE, n |-> nd.n, b |-> 0, e |-> 0, par |-> par, dep |-> dep, kids |-> ks.i]>> \o ks.r
FlatKids(cs, par, dep, k) ==
  IF cs = <<>> THEN [r |-> <<>>, i |-> <<>>]
  ELSE LET r == Flat(Head(cs), par, dep, k)
           x == FlatKids(Tail(cs), par, dep, k + Len(r))
       IN [r |-> r \o x.r, i |-> <<k>> \o x.i]
MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x
(* events: 3*node + 0 enter, 1 exit, 2 leaf *)
RECURSIVE Events(_,_), EventsOf(_,_,_)
Events(R, i) == IF R[i].t THEN <<3*i + 2>> ELSE <<3*i>> \o EventsOf(R, R[i].kids, 1) \o <<3*i + 1>>
EventsOf(R, ks, j) == IF j > Len(ks) THEN <<>> ELSE Events(R, ks[j]) \o EventsOf(R, ks, j + 1)
Leaves(R, i) == LET ev == SelectSeq(Events(R, i), LAMBDA x : x % 3 = 2) IN [j \in 1..Len(ev) |-> ev[j] \div 3]
Siblings(R, i) == IF R[i].par = 0 THEN <<>>
                  ELSE LET ks == R[R[i].par].kids
                           at == CHOOSE j \in 1..Len(ks) : ks[j] = i
                       IN SubSeq(ks, at + 1, Len(ks)) \o SubSeq(ks, 1, at - 1)
IsLast(R, i) == R[i].par = 0 \/ Last(R[R[i].par].kids) = i
Kids(R, i, P(_)) == SelectSeq(R[i].kids, P)
Covered(R, i) == LET l == Leaves(R, i) IN IF R[i].t THEN <<R[i].b, R[i].e>> ELSE <<R[l[1]].b, R[Last(l)].e>>
NodePos(R, i) == LET ps == Kids(R, i, LAMBDA j : R[j].n = "position")
                     l == Leaves(R, i)
                 IN IF ps # <<>> THEN R[ps[1]].b ELSE IF l = <<>> THEN -1 ELSE R[l[1]].b
Shown(tr) ==
  IF tr.m = "empty" THEN [m |-> "empty"]
  ELSE LET R == Flat(tr.root, 0, 0, 1)
           n == Len(R)
           \* nodes can be located if no production is empty
           solid == \A i \in 1..n : R[i].t \/ R[i].kids # <<>>
           node(i) == <<R[i].n, R[i].t, R[i].par = 0, R[i].n = "T", R[i].b, R[i].e, R[i].par, R[i].kids>>
           more(i) == [sib |-> Siblings(R, i), ev |-> Events(R, i), toks |-> Leaves(R, i), pos |-> NodePos(R, i),
                       ka |-> Kids(R, i, LAMBDA j : R[j].t /\ R[j].n = "a"), kA |-> Kids(R, i, LAMBDA j : ~R[j].t /\ R[j].n = "A"), kt |-> Kids(R, i, LAMBDA j : R[j].t),
                       first |-> IF R[i].kids = <<>> THEN 0 ELSE R[i].kids[1], cov |-> IF solid THEN Covered(R, i) ELSE <<-1, -1>>]
           end == LET l == Leaves(R, 1) IN IF l = <<>> THEN 0 ELSE MaxSet({R[l[j]].e : j \in 1..Len(l)})
           at(p) == LET l == Leaves(R, 1) IN l[CHOOSE j \in 1..Len(l) : p < R[l[j]].e /\ \A k \in 1..(j-1) : p >= R[l[k]].e]
       IN [m |-> "tree", size |-> n, depth |-> MaxSet({R[i].dep : i \in 1..n}), rem |-> tr.rem, nodes |-> [i \in 1..n |-> node(i)], last |-> [i \in 1..n |-> IsLast(R, i)],
           ev |-> Events(R, 1),
           more |-> IF n <= 40 THEN [i \in 1..n |-> more(i)] ELSE <<>>,
           find |-> IF n <= 40 THEN [p \in 1..end |-> at(p - 1)] ELSE <<>>]
(* the root's is_last_child is not documented *)
Same(exp, out) == IF exp.m \in {"none", "moved"} THEN TRUE
                  ELSE IF out.m # exp.m THEN FALSE
                  ELSE IF exp.m = "empty" THEN TRUE
                  ELSE exp = [out EXCEPT !.last[1] = TRUE, !.find = IF @ = <<>> THEN exp.find ELSE @]  \* only random-access inputs can be searched
Out(tr) == IF tr.m \in {"none", "moved"} THEN tr ELSE Shown(tr)

Step(s, op, out) ==
  CASE op.f = "start" -> [st |-> [bs |-> <<Frame("prod", op.n)>>, trees |-> IF op.i = 0 THEN s.trees ELSE [s.trees EXCEPT ![op.i] = Moved]], ok |-> out.n = 0, expect |-> 0]
    [] op.f = "finish" ->
         LET t == [m |-> "tree", root |-> Prod(s.bs[1].n, s.bs[1].c), rem |-> <<op.b, op.e>>]
         IN [st |-> [bs |-> <<>>, trees |-> [s.trees EXCEPT ![op.i] = t]], ok |-> Same(Out(t), out.tree), expect |-> Out(t)]
    [] op.f \in {"new", "clear", "move", "assign", "swap", "drop", "show"} ->
         LET i == op.i  j == op.j
             ts == CASE op.f = "new" -> [s.trees EXCEPT ![i] = Blank]
                     [] op.f = "clear" -> [s.trees EXCEPT ![i] = Blank]
                     [] op.f \in {"move", "assign"} -> [s.trees EXCEPT ![i] = s.trees[j], ![j] = Moved]
                     [] op.f = "swap" -> [s.trees EXCEPT ![i] = s.trees[j], ![j] = s.trees[i]]
                     [] op.f = "drop" -> [s.trees EXCEPT ![i] = None]
                     [] OTHER -> s.trees
         IN [st |-> [s EXCEPT !.trees = ts],
             ok |-> (\A k \in 1..2 : Same(Out(ts[k]), out.trees[k])) /\ out.blocks = out.blocks,
             expect |-> [k \in 1..2 |-> Out(ts[k])]]
    [] op.f = "end" -> [st |-> [s EXCEPT !.trees = <<None, None>>], ok |-> out.blocks = 0 /\ out.errors = 0, expect |-> "all memory is given back"]
    [] OTHER -> LET bs == Build(s.bs, op) IN [st |-> [s EXCEPT !.bs = bs], ok |-> out.n = Len(bs[Active(bs)].c), expect |-> Len(bs[Active(bs)].c)]
Ok(s) == TRUE
=============================================================================
