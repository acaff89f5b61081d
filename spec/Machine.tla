------------------------------- MODULE Machine -------------------------------
(* The abstract parsing machine.                                            *)
(*                                                                          *)
(* A grammar is data: c.prods maps a production name to                     *)
(*   [name, rule, ws (rule or {o:"none"}), tok, transp, ...].               *)
(* A machine state s is a record                                            *)
(*   p    position                                                          *)
(*   k    agenda: what is still to be parsed, head first. An entry is a     *)
(*        rule or a control item ("$..."), which acts as continuation and,  *)
(*        if the machine fails, as handler.                                  *)
(*   m    "run", "fail", "ok", "bad"                                        *)
(*   a    values produced so far for the innermost value consumer           *)
(*   v    context variables, newest first                                   *)
(*   w    automatic whitespace skipping enabled                             *)
(*   wp   production whose whitespace is active ("" for none)               *)
(*   dep  recursion depth                                                   *)
(*   log  the events reported so far: <<e, k, a, b, d>>                     *)
(*   val  value of the root production                                      *)
(*   ex   innermost expression: group of the operators so far, and their    *)
(*        number                                                             *)
(*   sc   innermost scanner: its state ("n" normal, "f" failed, "r"          *)
(*        recovering), the position it marked, what it showed so far         *)
(* Step(c, s) is the transition function.                                   *)
EXTENDS Text

Ev(e, k, a, b, d) == <<e, k, a, b, d>>
Emit(s, ev) == [s EXCEPT !.log = Append(@, ev)]
EmitAll(s, evs) == IF evs = <<>> THEN s ELSE [s EXCEPT !.log = @ \o evs]
TokEv(kind, a, b) == Ev("tok", kind, a, b, "")
ErrEv(tag, a, b) == Ev("err", tag, a, b, "")
Fail(s) == [s EXCEPT !.m = "fail"]
Push(s, items) == [s EXCEPT !.k = items \o @]
PushArg(s, x) == [s EXCEPT !.a = Append(@, x)]
KeepVars(s, n) == IF Len(s.v) = n THEN s ELSE [s EXCEPT !.v = SubSeq(@, Len(@) - n + 1, Len(@))]

RECURSIVE JoinFrom(_,_)
JoinFrom(xs, i) == IF i > Len(xs) THEN "" ELSE "," \o xs[i] \o JoinFrom(xs, i+1)
Join(xs) == IF xs = <<>> THEN "" ELSE xs[1] \o JoinFrom(xs, 2)

Lexeme(a, b) == "L" \o ToString(a) \o "-" \o ToString(b)

None == [o |-> "none"]

(* ------------------------------------------------------------------------ *)
(* Classification of rules                                                  *)
TokenOps == {"lit","kw","nf","cf","lset","cc","any","until","untileof","digits","ndigits",
             "idp","token","errtok","kind","bom","byt","bits"}
IsToken(r) == r.o \in TokenOps

UncondTokens == {"any","untileof"}

RECURSIVE IsUncond(_,_)
IsUncond(c, r) ==
  CASE r.o \in UncondTokens \union {"else","err","break","errfn"} -> TRUE
    [] r.o = "lit" -> r.u = <<>>
    [] r.o \in {"br"} -> IsUncond(c, r.c)
    [] r.o \in {"cap","nowt","try","posr","kind","errtok","pas","mem"} -> IsUncond(c, r.r)
    [] r.o = "prd" -> (c.prods[r.n].ws.o = "none") /\ IsUncond(c, c.prods[r.n].rule)
    [] r.o = "inline" -> IsUncond(c, c.prods[r.n].rule)
    [] OTHER -> FALSE

RECURSIVE IsBranch(_,_)
IsBranch(c, r) ==
  CASE IsToken(r) -> TRUE
    [] r.o \in {"br","else","err","break","eof","eol","peek","peeknot","look","ident","sym","int","pad","bint",
                "must","cvis","cveq","cidcap","cidrem","op","recb"} -> TRUE
    [] r.o \in {"cap","capp","nowt","try","posr","pas","mem","cvspan"} -> IsBranch(c, r.r)
    [] r.o = "prd" -> (c.prods[r.n].ws.o = "none") /\ IsBranch(c, c.prods[r.n].rule)
    [] r.o = "inline" -> IsBranch(c, c.prods[r.n].rule)
    [] r.o = "list" -> IsBranch(c, r.r)
    [] r.o = "alt" -> ~ \E i \in 1..Len(r.rs) : IsUncond(c, r.rs[i])
    [] r.o = "delim" -> IsBranch(c, r.open)
    [] OTHER -> FALSE

(* ------------------------------------------------------------------------ *)
(* Literals                                                                 *)
RECURSIVE PrefixLen(_,_,_,_)
PrefixLen(us, inp, p, i) ==   \* number of units of us[i+1..] matched at p+i.., total
  IF i = Len(us) THEN i
  ELSE IF Unit(inp, p+i) = us[i+1] THEN PrefixLen(us, inp, p, i+1) ELSE i

(* folded units: c.fold maps code point (as string) to its simple fold      *)
FoldCp(c, cp) == LET key == ToString(cp) IN IF key \in DOMAIN c.fold THEN c.fold[key] ELSE cp

Encode(enc, cp) ==
  CASE enc = "utf8" ->
         IF cp < 128 THEN <<cp>>
         ELSE IF cp < 2048 THEN <<192 + cp \div 64, 128 + (cp % 64)>>
         ELSE IF cp < 65536 THEN <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
         ELSE <<240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
    [] enc = "utf16" ->
         IF cp < 65536 THEN <<cp>>
         ELSE <<55296 + (cp - 65536) \div 1024, 56320 + ((cp - 65536) % 1024)>>
    [] OTHER -> <<cp>>

(* match the units us at p under the folding f; result [ok, end, idx]       *)
(* unicode folding works a code point at a time                             *)
RECURSIVE FoldMatch(_,_,_,_,_)
FoldMatch(c, f, us, p, i) ==
  IF i = Len(us) THEN [ok |-> TRUE, end |-> p]
  ELSE IF f = "ascii" THEN
     IF Unit(c.inp, p) # -1 /\ AsciiFold(Unit(c.inp, p)) = us[i+1] THEN FoldMatch(c, f, us, p+1, i+1)
     ELSE [ok |-> FALSE, end |-> p]
  ELSE LET d == Decode(c.enc, c.inp, p)
           stop == IF d.end = p /\ p < Len(c.inp) THEN p + 1 ELSE d.end
           fu == IF d.ok THEN Encode(c.enc, FoldCp(c, d.cp)) ELSE SubSeq(c.inp, p+1, stop) IN
       \* malformed units stand for themselves
       IF fu # <<>> /\ i + Len(fu) <= Len(us) /\ SubSeq(us, i+1, i+Len(fu)) = fu
       THEN FoldMatch(c, f, us, stop, i + Len(fu))
       ELSE [ok |-> FALSE, end |-> p]

(* A literal-like rule l (lit, kw, nf, cf) at p: [ok, end]: end of literal  *)
RECURSIVE LitBase(_)
LitBase(l) == IF l.o \in {"cf","nf"} THEN LitBase(l.l) ELSE l
RECURSIVE LitFold(_)
LitFold(l) == CASE l.o = "cf" -> l.f [] l.o = "nf" -> LitFold(l.l) [] OTHER -> ""

LitUnitsF(c, l, f, p) ==
  LET b == LitBase(l) IN
  IF f = "" THEN LET n == PrefixLen(b.u, c.inp, p, 0) IN [ok |-> n = Len(b.u), end |-> p + n]
  ELSE FoldMatch(c, f, b.u, p, 0)
LitUnits(c, l, p) == LitUnitsF(c, l, LitFold(l), p)

(* the class that must not follow the literal, if any *)
RECURSIVE LitFollow(_)
LitFollow(l) ==
  CASE l.o = "kw" -> l.t
    [] l.o = "nf" -> l.c
    [] l.o = "cf" -> LitFollow(l.l)
    [] OTHER -> None

HasFollow(l) == "k" \in DOMAIN LitFollow(l)

(* with folding, the following character is folded before it is tested *)
FollowHit(c, cls, f, p) ==
  IF f = "" THEN ClassEnd(cls, c.enc, c.inp, p) # -1
  ELSE LET d == Decode(c.enc, c.inp, p) IN
       d.ok /\ InClass(cls, IF f = "ascii" THEN AsciiFold(d.cp) ELSE FoldCp(c, d.cp))

LitOk(c, l, f, p) ==    \* end of the match or -1
  LET m == LitUnitsF(c, l, f, p) IN
  IF ~m.ok THEN -1
  ELSE LET fc == LitFollow(l) IN
       IF "k" \in DOMAIN fc /\ FollowHit(c, fc, f, m.end) THEN -1 ELSE m.end

(* one case folded literal folds the entire set it is in *)
SetFold(ls) ==
  LET fs == {LitFold(ls[i]) : i \in 1..Len(ls)} \ {""} IN IF fs = {} THEN "" ELSE CHOOSE f \in fs : TRUE

(* longest match in a set: [ok, end, i]; ties cannot occur for distinct literals *)
LongestLit(c, ls, p) ==
  LET f == SetFold(ls)
      es == [i \in 1..Len(ls) |-> LitOk(c, ls[i], f, p)]
      best == {i \in 1..Len(ls) : es[i] # -1 /\ \A j \in 1..Len(ls) : es[j] <= es[i]}
  IN IF best = {} THEN [ok |-> FALSE, end |-> p, i |-> 0]
     ELSE LET i == CHOOSE x \in best : \A y \in best : y <= x IN [ok |-> TRUE, end |-> es[i], i |-> i]

(* ------------------------------------------------------------------------ *)
(* Token matching: T(ok, end, err) where err is the error event if ~ok      *)
T(ok, end, err) == [ok |-> ok, end |-> end, err |-> err]
NoErr == Ev("", "", 0, 0, "")

RECURSIVE RunClass(_,_,_)
RunClass(c, cls, p) == LET e == ClassEnd(cls, c.enc, c.inp, p) IN IF e = -1 THEN p ELSE RunClass(c, cls, e)

RECURSIVE MatchTok(_,_,_)
RECURSIVE Run(_,_)
RECURSIVE UntilFrom(_,_,_)
RECURSIVE DigitsSep(_,_,_,_)
RECURSIVE NDigits(_,_,_,_)

DigitCls(b) == b.c
Zero == 48

UntilFrom(c, t, p) ==
  LET m == MatchTok(c, t, p) IN
  IF m.ok THEN T(TRUE, m.end, NoErr)
  ELSE IF p >= Len(c.inp) THEN T(FALSE, p, m.err)
  ELSE UntilFrom(c, t, p + 1)

(* digits with separator, after a first digit; [ok, end] *)
DigitsSep(c, cls, sep, p) ==
  LET q == RunClass(c, cls, p)
      m == MatchTok(c, sep, q) IN
  IF ~m.ok THEN [ok |-> TRUE, end |-> q]
  ELSE LET e == ClassEnd(cls, c.enc, c.inp, m.end) IN
       IF e = -1 THEN [ok |-> FALSE, end |-> m.end] ELSE DigitsSep(c, cls, sep, e)

NDigits(c, r, n, p) ==      \* n digits still to match; separators between digits are optional
  IF n = 0 THEN [ok |-> TRUE, end |-> p]
  ELSE LET q == IF n < r.n /\ r.sep.o # "none"
                THEN (LET m == MatchTok(c, r.sep, p) IN IF m.ok THEN m.end ELSE p) ELSE p
           e == ClassEnd(r.b.c, c.enc, c.inp, q) IN
       IF e = -1 THEN [ok |-> FALSE, end |-> q] ELSE NDigits(c, r, n - 1, e)

MatchDigits(c, r, p) ==
  LET e1 == ClassEnd(r.b.c, c.enc, c.inp, p) IN
  IF e1 = -1 THEN T(FALSE, p, Ev("err", "cc", p, p, r.b.n))
  ELSE LET m == IF r.sep.o = "none" THEN [ok |-> TRUE, end |-> RunClass(c, r.b.c, p)]
                ELSE DigitsSep(c, r.b.c, r.sep, e1) IN
       IF ~m.ok THEN T(FALSE, m.end, Ev("err", "cc", m.end, m.end, r.b.n))
       ELSE IF r.nlz /\ m.end # p + 1 /\ Unit(c.inp, p) = Zero
            THEN T(FALSE, p + 1, ErrEv("forbidden leading zero", p, p + 1))
       ELSE T(TRUE, m.end, NoErr)

IdPattern(c, l, t, p) ==
  LET e == ClassEnd(l, c.enc, c.inp, p) IN IF e = -1 THEN -1 ELSE RunClass(c, t, e)

(* an identifier of folded characters *)
FoldEnd(c, cls, f, p) == IF FollowHit(c, cls, f, p) THEN Decode(c.enc, c.inp, p).end ELSE -1
RECURSIVE RunFold(_,_,_,_)
RunFold(c, cls, f, p) == LET e == FoldEnd(c, cls, f, p) IN IF e = -1 THEN p ELSE RunFold(c, cls, f, e)
IdPatternFold(c, l, t, f, p) ==
  IF f = "" THEN IdPattern(c, l, t, p)
  ELSE LET e == FoldEnd(c, l, f, p) IN IF e = -1 THEN -1 ELSE RunFold(c, t, f, e)

NoEx == [g |-> 0, n |-> 0]
NoScan == [st |-> "n", mark |-> 0, out |-> <<>>]
SubState(c, rule, p) ==
  [p |-> p, k |-> <<rule, [o |-> "$final"]>>, m |-> "run", a |-> <<>>, v |-> <<>>, w |-> TRUE,
   wp |-> "", dep |-> 0, log |-> <<>>, val |-> "", ex |-> NoEx, sc |-> NoScan]

HasErr(log) == \E i \in 1..Len(log) : log[i][1] = "err"

(* a nested, event-free match of an arbitrary rule *)
RECURSIVE MulAdd(_,_,_)
MulAdd(ds, m, a) ==
  IF ds = <<>> THEN (IF a = 0 THEN <<>> ELSE <<a % 10>> \o MulAdd(<<>>, m, a \div 10))
  ELSE LET x == Head(ds) * m + a IN <<x % 10>> \o MulAdd(Tail(ds), m, x \div 10)

(* bytes: how many of the n bytes at p are in the class *)
RECURSIVE ByteRun(_,_,_,_)
ByteRun(c, cls, n, p) ==
  IF n > 0 /\ Unit(c.inp, p) # -1 /\ InClass(cls, Unit(c.inp, p)) THEN ByteRun(c, cls, n - 1, p + 1) ELSE p
(* a pattern of eight bits, most significant first; 2 stands for either *)
BitsMatch(pat, u) == \A i \in 1..8 : pat[i] = 2 \/ pat[i] = (u \div (2 ^ (8 - i))) % 2
RECURSIVE BytesValue(_,_)
BytesValue(bs, acc) == IF bs = <<>> THEN acc ELSE BytesValue(Tail(bs), MulAdd(acc, 256, bs[1]))

SubMatch(c, rule, p) ==
  LET s == Run(c, SubState(c, rule, p)) IN [ok |-> s.m = "ok" /\ ~HasErr(s.log), end |-> s.p]

MatchTok(c, t, p) ==
  CASE t.o = "lit" \/ (t.o = "cf" /\ LitBase(t).o = "lit" /\ ~HasFollow(t)) ->
         LET m == LitUnits(c, t, p) b == LitBase(t) IN
         IF m.ok THEN T(TRUE, m.end, NoErr) ELSE T(FALSE, m.end, Ev("err", "lit", p, m.end, b.s))
    [] t.o = "kw" \/ (t.o = "cf" /\ LitBase(t).o = "kw") ->
         LET m == LitUnits(c, t, p)  b == LitBase(t)
             hit == FollowHit(c, b.t, LitFold(t), m.end)
             ide == IdPatternFold(c, b.l, b.t, LitFold(t), p) IN
         IF m.ok /\ ~hit THEN T(TRUE, m.end, NoErr)
         ELSE T(FALSE, IF m.ok THEN m.end ELSE p,
                Ev("err", "kw", p, IF ide = -1 THEN p ELSE ide, b.s))
    [] t.o \in {"nf","cf"} ->
         LET m == LitUnits(c, t, p) IN
         IF ~m.ok THEN T(FALSE, p, Ev("err", "lit", p, m.end, LitBase(t).s))
         ELSE IF FollowHit(c, LitFollow(t), LitFold(t), m.end) THEN T(FALSE, m.end, ErrEv("follow restriction", m.end, m.end))
         ELSE T(TRUE, m.end, NoErr)
    [] t.o = "lset" ->
         LET m == LongestLit(c, t.ls, p) IN
         IF m.ok THEN T(TRUE, m.end, NoErr) ELSE T(FALSE, p, ErrEv("expected literal set", p, p))
    [] t.o = "cc" ->
         LET e == ClassEnd(t.c, c.enc, c.inp, p) IN
         IF e # -1 THEN T(TRUE, e, NoErr) ELSE T(FALSE, p, Ev("err", "cc", p, p, t.n))
    [] t.o = "any" -> T(TRUE, Len(c.inp), NoErr)
    [] t.o = "until" -> UntilFrom(c, t.t, p)
    [] t.o = "untileof" -> LET m == UntilFrom(c, t.t, p) IN T(TRUE, m.end, NoErr)
    [] t.o = "digits" -> MatchDigits(c, t, p)
    [] t.o = "ndigits" ->
         LET m == NDigits(c, t, t.n, p) IN
         IF m.ok THEN T(TRUE, m.end, NoErr) ELSE T(FALSE, m.end, Ev("err", "cc", m.end, m.end, t.b.n))
    [] t.o = "idp" ->
         LET e == IdPattern(c, t.l, t.t, p) IN
         IF e # -1 THEN T(TRUE, e, NoErr) ELSE T(FALSE, p, Ev("err", "cc", p, p, t.ln))
    [] t.o = "token" ->
         LET m == SubMatch(c, t.r, p) IN
         IF m.ok THEN T(TRUE, m.end, NoErr) ELSE T(FALSE, m.end, ErrEv("missing token", p, m.end))
    [] t.o = "errtok" ->
         LET m == MatchTok(c, t.r, p) IN
         IF m.ok THEN m ELSE T(FALSE, m.end, ErrEv(t.tag, p, m.end))
    [] t.o = "kind" -> MatchTok(c, t.r, p)
    [] t.o = "byt" -> LET e == ByteRun(c, t.c, t.n, p) IN
         IF e = p + t.n THEN T(TRUE, e, NoErr) ELSE T(FALSE, e, Ev("err", "cc", e, e, t.nm))
    [] t.o = "bits" -> IF Unit(c.inp, p) # -1 /\ BitsMatch(t.pat, Unit(c.inp, p)) THEN T(TRUE, p + 1, NoErr)
                       ELSE T(FALSE, p, Ev("err", "cc", p, p, "bits"))

RECURSIVE TokKind(_)
TokKind(t) ==
  CASE t.o \in {"lit","kw","nf","cf","lset"} -> "literal"
    [] t.o \in {"any","until","untileof"} -> "any"
    [] t.o \in {"digits","ndigits"} -> "digits"
    [] t.o = "idp" -> "identifier"
    [] t.o = "cc" -> t.k
    [] t.o = "errtok" -> TokKind(t.r)
    [] t.o = "kind" -> t.kn
    [] t.o = "byt" -> IF t.any THEN "any" ELSE "token"
    [] OTHER -> "token"

(* ------------------------------------------------------------------------ *)
(* Whitespace                                                               *)
RECURSIVE RunTok(_,_,_)
RunTok(c, t, p) == LET m == MatchTok(c, t, p) IN IF m.ok /\ m.end > p THEN RunTok(c, t, m.end) ELSE p

OnlyErrs(log) == SelectSeq(log, LAMBDA e : e[1] = "err")

SkipRule(c, ws, s) ==
  IF IsToken(ws) THEN
     LET e == RunTok(c, ws, s.p) IN [Emit(s, TokEv("whitespace", s.p, e)) EXCEPT !.p = e]
  ELSE
     LET t == Run(c, SubState(c, [o |-> "loop", r |-> [o |-> "alt", rs |-> <<ws, [o |-> "break"]>>]], s.p))
         ok == t.m = "ok"
         s1 == [EmitAll(s, OnlyErrs(t.log)) EXCEPT !.p = t.p]
         s2 == Emit(s1, TokEv(IF ok THEN "whitespace" ELSE "error token", s.p, t.p))
     IN IF ok THEN s2 ELSE Fail(s2)

SkipWs(c, s) ==
  IF s.wp = "" \/ ~s.w \/ (s.k # <<>> /\ Head(s.k).o = "$capp") THEN s
  ELSE SkipRule(c, c.prods[s.wp].ws, s)

(* consume token t, matched up to end *)
Consume(c, s, kind, end) == SkipWs(c, [Emit(s, TokEv(kind, s.p, end)) EXCEPT !.p = end])

(* ------------------------------------------------------------------------ *)
(* Branch conditions: Try is pure; Cancel gives the events reported when    *)
(* the branch is not taken; Finish takes it.                                *)
B(ok, e, i, sub) == [ok |-> ok, e |-> e, i |-> i, sub |-> sub]

RECURSIVE Try(_,_,_)
RECURSIVE TryAlt(_,_,_,_,_)
RECURSIVE CancelEvs(_,_,_,_)
RECURSIVE CancelAlt(_,_,_,_,_)
RECURSIVE Finish(_,_,_,_)
RECURSIVE Parse(_,_,_)

TryAlt(c, rs, s, i, acc) ==
  IF i > Len(rs) THEN B(FALSE, s.p, 0, acc)
  ELSE LET t == Try(c, rs[i], s) IN
       IF t.ok THEN B(TRUE, s.p, i, Append(acc, t)) ELSE TryAlt(c, rs, s, i+1, Append(acc, t))

RECURSIVE FindFrom(_,_,_,_)
FindFrom(c, ns, es, p) ==   \* lookahead: [ok, end]
  LET all == ns \o es
      m == LongestLit(c, all, p) IN
  IF m.ok THEN [ok |-> m.i <= Len(ns), end |-> m.end, at |-> p, lim |-> m.i > Len(ns)]
  ELSE IF p >= Len(c.inp) THEN [ok |-> FALSE, end |-> p, at |-> p, lim |-> FALSE]
  ELSE FindFrom(c, ns, es, p + 1)

NewlineLits == << [o |-> "lit", u |-> <<10>>, s |-> "\n"], [o |-> "lit", u |-> <<13, 10>>, s |-> "\r\n"] >>
NewlineTok == [o |-> "errtok", r |-> [o |-> "lset", ls |-> NewlineLits], tag |-> "expected newline"]

(* reserved identifiers: the identifier text is the whole world *)
Reserved(c, r, b, e) ==
  LET c2 == [c EXCEPT !.inp = SubSeq(c.inp, 1, e)] IN
  \E i \in 1..Len(r.res) :
    LET q == r.res[i] IN
    CASE q.k = "is"   -> LET m == LongestLit(c2, q.ls, b) IN m.ok /\ m.end = e
      [] q.k = "pre"  -> LongestLit(c2, q.ls, b).ok
      [] q.k = "cont" -> \E x \in b..e : LongestLit(c2, q.ls, x).ok
      [] q.k = "suf"  -> \E x \in b..e : LET m == LongestLit(c2, q.ls, x) IN m.ok /\ m.end = e

(* symbol tables: r.tab = [ls, vs] *)
SymWhole(c, tab, b, e) ==
  LET c2 == [c EXCEPT !.inp = SubSeq(c.inp, 1, e)]
      m == LongestLit(c2, tab.ls, b) IN IF m.ok /\ m.end = e THEN m.i ELSE 0

(* context variables *)
VarIdx(s, id) == CHOOSE i \in 1..Len(s.v) : s.v[i].id = id /\ \A j \in 1..(i-1) : s.v[j].id # id
VarGet(s, id) == s.v[VarIdx(s, id)].x
VarSet(s, id, x) == [s EXCEPT !.v[VarIdx(s, id)].x = x]

Try(c, r, s) ==
  CASE IsToken(r) -> LET m == MatchTok(c, r, s.p) IN B(m.ok, m.end, 0, <<>>)
    [] r.o \in {"cap"} -> LET m == MatchTok(c, r.r, s.p) IN B(m.ok, m.end, 0, <<>>)
    [] r.o \in {"else","err","break"} -> B(TRUE, s.p, 0, <<>>)
    [] r.o = "br" -> Try(c, r.c, s)
    [] r.o \in {"nowt","try","posr","capp","pas","mem","list","cvspan"} -> Try(c, r.r, s)
    [] r.o = "must" -> Try(c, r.r, s)
    [] r.o = "inline" -> Try(c, c.prods[r.n].rule, s)
    [] r.o = "alt" -> TryAlt(c, r.rs, s, 1, <<>>)
    [] r.o \in {"prd","recb"} -> LET t == Try(c, c.prods[r.n].rule, s) IN B(t.ok, s.p, 0, <<t>>)
    [] r.o = "eof" -> B(s.p = Len(c.inp), s.p, 0, <<>>)
    [] r.o = "eol" -> B(s.p = Len(c.inp) \/ MatchTok(c, NewlineTok, s.p).ok, s.p, 0, <<>>)
    [] r.o = "peek" -> LET m == IF IsToken(r.r) THEN MatchTok(c, r.r, s.p) ELSE SubMatch(c, r.r, s.p)
                       IN B(m.ok, m.end, s.p, <<>>)
    [] r.o = "peeknot" -> LET m == IF IsToken(r.r) THEN MatchTok(c, r.r, s.p) ELSE SubMatch(c, r.r, s.p)
                          IN B(~m.ok, m.end, s.p, <<>>)
    [] r.o = "look" -> LET m == FindFrom(c, r.ns, r.es, s.p) IN B(m.ok, m.end, s.p, <<>>)
    [] r.o = "ident" -> LET e == IdPattern(c, r.l, r.t, s.p) IN
                        IF e = -1 THEN B(FALSE, s.p, 0, <<>>)
                        ELSE B(~Reserved(c, r, s.p, e), e, 0, <<>>)
    [] r.o = "sym" ->
         IF r.t.o = "none" THEN LET m == LongestLit(c, r.tab.ls, s.p) IN B(m.ok, m.end, m.i, <<>>)
         ELSE IF r.t.o = "idp" THEN
              LET m == LongestLit(c, r.tab.ls, s.p) IN
              B(m.ok /\ ClassEnd(r.t.t, c.enc, c.inp, m.end) = -1, m.end, m.i, <<>>)
         ELSE LET m == MatchTok(c, r.t, s.p)
                  i == IF m.ok THEN SymWhole(c, r.tab, s.p, m.end) ELSE 0 IN B(i # 0, m.end, i, <<>>)
    [] r.o \in {"int", "bint", "pad"} -> LET m == MatchTok(c, r.t, s.p) IN B(m.ok, m.end, 0, <<>>)
    [] r.o = "op" -> Try(c, r.r, s)
    [] r.o = "cvis" -> B(VarGet(s, r.id) = r.x, s.p, 0, <<>>)
    [] r.o = "cveq" -> B(\A i \in 1..Len(r.ids) : VarGet(s, r.ids[i]) = VarGet(s, r.ids[1]), s.p, 0, <<>>)
    [] r.o = "cidcap" -> Try(c, r.r, s)
    [] r.o = "cidrem" ->
         LET e == IdPattern(c, r.r.l, r.r.t, s.p) IN
         B(e # -1 /\ SubSeq(c.inp, s.p + 1, e) = VarGet(s, r.id), e, 0, <<>>)
    [] r.o = "delim" -> Try(c, r.open, s)

CancelAlt(c, rs, t, p, i) ==
  IF i > Len(rs) \/ i > Len(t.sub) THEN <<>>
  ELSE CancelEvs(c, rs[i], t.sub[i], p) \o CancelAlt(c, rs, t, p, i+1)

(* events when a branch that was tried at p is not taken *)
CancelEvs(c, r, t, p) ==
  CASE r.o \in {"peek","peeknot","look"} -> <<Ev("bt", "", t.i, t.e, "")>>
    [] r.o = "br" -> CancelEvs(c, r.c, t, p)
    [] r.o \in {"nowt","try","posr","capp","pas","mem","list","must","cvspan"} -> CancelEvs(c, r.r, t, p)
    [] r.o = "alt" -> CancelAlt(c, r.rs, t, p, 1)
    [] r.o = "inline" -> CancelEvs(c, c.prods[r.n].rule, t, p)
    [] r.o \in {"prd","recb"} ->
         <<Ev("ps", r.n, p, p, "")>> \o CancelEvs(c, c.prods[r.n].rule, t.sub[1], p)
         \o <<Ev("pc", r.n, p, p, "")>>
    [] r.o = "delim" -> CancelEvs(c, r.open, t, p)
    [] OTHER -> <<>>

Cancel(c, r, t, s) == EmitAll(s, CancelEvs(c, r, t, s.p))

(* ------------------------------------------------------------------------ *)
(* Productions                                                              *)
StartPrd(c, s, n) ==
  LET pr == c.prods[n]
      wp == IF pr.ws.o # "none" THEN n ELSE IF pr.tok THEN "" ELSE s.wp
      f  == [o |-> "$prd", n |-> n, a |-> s.a, nv |-> Len(s.v), wp |-> s.wp]
      s1 == Push(Emit(s, Ev("ps", n, s.p, s.p, "")), <<f>>)
  IN [s1 EXCEPT !.wp = wp, !.a = <<>>]

(* the value of an operator's tag *)
OpVal(r, p) == IF r.val = "@" THEN "@" \o ToString(p) ELSE r.val

(* an aggregate with the members fs from a list of member, value, ... *)
AggVal(fs, as) ==
  LET val(f) == LET is == {i \in 1..(Len(as) \div 2) : as[2*i-1] = "." \o f}
                IN IF is = {} THEN "nil" ELSE as[2 * (CHOOSE i \in is : \A j \in is : j <= i)]
  IN "{" \o Join([i \in 1..Len(fs) |-> fs[i] \o "=" \o val(fs[i])]) \o "}"

(* value of a production from its arguments *)
PrdVal(c, n, a) ==
  LET pr == c.prods[n] IN
  IF pr.val = "int" THEN
     (IF a[1] = "-1" /\ Len(a) = 2 THEN (IF a[2] = "0" THEN "0" ELSE "-" \o a[2]) ELSE a[Len(a)]) ELSE
  IF pr.val = "expr" THEN a[1] ELSE
  IF pr.val = "agg" THEN n \o "(" \o (IF Len(a) = 1 THEN a[1] ELSE AggVal(pr.fields, a)) \o ")" ELSE
  IF pr.val = "fwd" THEN (IF a = <<>> THEN "" ELSE a[1]) ELSE n \o "(" \o Join(a) \o ")"

RestoreVars(s, f) == IF "v" \in DOMAIN f THEN [s EXCEPT !.v = f.v] ELSE KeepVars(s, f.nv)
EndPrd(c, s, f) ==      \* f already popped
  LET s1 == Emit(s, Ev("pf", f.n, s.p, s.p, ""))
      v  == PrdVal(c, f.n, s.a)
      s2 == [RestoreVars(s1, f) EXCEPT !.wp = f.wp,
                !.a = IF c.prods[f.n].val = "void" THEN f.a ELSE Append(f.a, v)]
  IN IF c.prods[f.n].tok /\ "v" \notin DOMAIN f THEN SkipWs(c, s2) ELSE s2

ParsePrd(c, s, n) ==
  LET s1 == StartPrd(c, s, n)
      s2 == IF c.prods[n].ws.o # "none" THEN SkipWs(c, s1) ELSE s1 IN
  IF s2.m = "fail" THEN s2 ELSE Push(s2, <<c.prods[n].rule>>)

EnterDepth(c, s) ==
  IF s.dep >= c.maxdep THEN Fail(Emit(s, ErrEv("maximum recursion depth exceeded", s.p, s.p)))
  ELSE [Push(s, <<[o |-> "$dep", d |-> s.dep]>>) EXCEPT !.dep = @ + 1]

(* ------------------------------------------------------------------------ *)
(* Integers: arbitrary precision via decimal digit sequences               *)
(* dec: sequence of decimal digits, least significant first                 *)
RECURSIVE DecLess(_,_,_)
DecLess(x, y, i) ==   \* same length, compare from digit i (most significant) down
  IF i = 0 THEN FALSE
  ELSE IF x[i] < y[i] THEN TRUE ELSE IF x[i] > y[i] THEN FALSE ELSE DecLess(x, y, i - 1)
DecLeq(x, y) == \/ Len(x) < Len(y) \/ (Len(x) = Len(y) /\ ~DecLess(y, x, Len(x)))

RECURSIVE DecStr(_,_)
DecStr(x, i) == IF i = 0 THEN "" ELSE Chr(48 + x[i]) \o DecStr(x, i - 1)
RECURSIVE StripZeros(_)       \* leading zeros; the most significant digit is the last
StripZeros(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN StripZeros(SubSeq(x, 1, Len(x) - 1)) ELSE x
DecToStr(x) == IF x = <<>> THEN "0" ELSE DecStr(x, Len(x))

RECURSIVE DecToNat(_)
DecToNat(x) == IF x = <<>> THEN 0 ELSE Head(x) + 10 * DecToNat(Tail(x))

DigitVal(u) == IF u \in 48..57 THEN u - 48 ELSE IF u \in 97..122 THEN u - 87 ELSE IF u \in 65..90 THEN u - 55 ELSE 99

RECURSIVE NumValue(_,_,_,_,_)
NumValue(c, radix, a, b, acc) ==
  IF a >= b THEN acc
  ELSE LET d == DigitVal(c.inp[a+1]) IN
       NumValue(c, radix, a + 1, b, IF d < radix THEN MulAdd(acc, radix, d) ELSE acc)

(* r.max: decimal digits of the largest value, least significant first; <<>> = unbounded *)
IntFinish(c, r, s, b, e) ==
  LET v == NumValue(c, r.radix, b, e, <<>>)
      over == r.max # <<>> /\ ~DecLeq(v, r.max)
      s1 == IF over THEN Emit(s, Ev("err", r.tag, b, e, "overflow")) ELSE s
      s2 == SkipWs(c, s1)
  IN PushArg(s2, IF over THEN "overflow" ELSE IF r.cp THEN "U+" \o Hex(DecToNat(v), 1) ELSE DecToStr(v))

(* the integer of exactly n bytes *)
BintFinish(c, r, s, b, e) ==
  LET bs == SubSeq(c.inp, b + 1, e)
      be == IF r.big THEN bs ELSE [i \in 1..Len(bs) |-> bs[Len(bs) + 1 - i]] IN
  IF e - b # r.n THEN Fail(Emit(s, ErrEv("mismatched byte count", b, e)))
  ELSE PushArg(SkipWs(c, s), DecToStr(StripZeros(BytesValue(be, <<>>))))
(* padding with another value is an error, but accepted *)
RECURSIVE PadErrs(_,_,_,_)
PadErrs(c, r, b, e) ==
  IF b = e THEN <<>>
  ELSE (IF c.inp[b+1] = r.v THEN <<>> ELSE <<Ev("err", "lit", b, b, r.s)>>) \o PadErrs(c, r, b + 1, e)
PadFinish(c, r, s, b, e) == SkipWs(c, EmitAll(s, PadErrs(c, r, b, e)))

(* ------------------------------------------------------------------------ *)
(* Lists                                                                    *)
ListFrame(r, s, ph) ==
  [o |-> "$lst", r |-> r, ph |-> ph, sink |-> <<>>, a |-> s.a, nv |-> Len(s.v), sp |-> s.p, rb |-> s.p]

Collect(s, f) == IF s.a = <<>> THEN f ELSE [f EXCEPT !.sink = Append(@, "(" \o Join(s.a) \o ")")]
SinkVal(f) == "[" \o Join(f.sink) \o "]"

ListDone(s, f) == [s EXCEPT !.a = Append(f.a, SinkVal(f))]

SepTrailing(s, sep, b, e) ==
  IF sep.k = "sep" THEN Emit(s, ErrEv(sep.tag, b, e)) ELSE s

RECURSIVE ListItem(_,_,_)
ListItem(c, s, f) ==        \* after the separator (or where it would be)
  LET r == f.r IN
  IF IsBranch(c, r.r) THEN
     LET t == Try(c, r.r, s) IN
     IF t.ok THEN Finish(c, r.r, t, Push([s EXCEPT !.a = <<>>], <<[f EXCEPT !.ph = "item"]>>))
     ELSE LET s1 == Cancel(c, r.r, t, s) IN
          ListDone(IF r.sep.o = "none" THEN s1 ELSE SepTrailing(s1, r.sep, f.sp, s.p), f)
  ELSE Push([s EXCEPT !.a = <<>>], <<r.r, [f EXCEPT !.ph = "item"]>>)

ListNext(c, s, f) ==        \* after an item
  LET r == f.r IN
  IF r.sep.o = "none" THEN ListItem(c, s, f)
  ELSE LET t == Try(c, r.sep.r, s) IN
       IF t.ok THEN Finish(c, r.sep.r, t, Push([s EXCEPT !.a = <<>>], <<[f EXCEPT !.ph = "sep", !.sp = s.p]>>))
       ELSE ListDone(Cancel(c, r.sep.r, t, s), f)

(* Lists with terminator, which recover from errors in items and separators *)
RECURSIVE LT(_,_,_,_)
RECURSIVE LTRecover(_,_,_,_)

LTFrame(r, s) ==
  [o |-> "$lstt", r |-> r, ph |-> "item", sink |-> <<>>, a |-> s.a, nv |-> Len(s.v), sp |-> s.p, rb |-> s.p]

LTDone(c, s, f, t) == Finish(c, f.r.t, t, [s EXCEPT !.a = Append(f.a, SinkVal(f))])

LimitOk(c, ls, p) == LongestLit(c, ls, p).ok

LT(c, s0, f, st) ==
  LET r == f.r  s == [s0 EXCEPT !.a = <<>>] IN
  CASE st = "term" ->
         LET t == Try(c, r.t, s) IN
         IF t.ok THEN LTDone(c, s, f, t) ELSE LT(c, Cancel(c, r.t, t, s), f, "sep")
    [] st = "sep" ->
         IF r.sep.o = "none" THEN LT(c, s, f, "item")
         ELSE Push(s, <<r.sep.r, [f EXCEPT !.ph = "sep", !.sp = s.p]>>)
    [] st = "trail" ->
         LET t == Try(c, r.t, s) IN
         IF t.ok THEN LTDone(c, SepTrailing(s, r.sep, f.sp, s.p), f, t)
         ELSE LT(c, s, f, "item")
    [] st = "item" -> Push(s, <<r.r, [f EXCEPT !.ph = "item"]>>)
    [] st = "rec" -> LTRecover(c, Emit(s, Ev("rs", "", s.p, s.p, "")), [f EXCEPT !.rb = s.p],
                                    f.ph \in {"rsep","ritem"} /\ s.p = f.rb)

(* the error token and recovery events once the recovery ends at s.p *)
RecDone(s, b, ok) ==
  EmitAll(s, <<TokEv("error token", b, s.p), Ev(IF ok THEN "rf" ELSE "rc", "", s.p, s.p, "")>>)

(* skip: the item/separator at this very position has already failed without consuming anything *)
LTRecover(c, s, f, skip) ==
  LET r == f.r
      hasSep == r.sep.o # "none"
      tryItem == ~hasSep /\ IsBranch(c, r.r)
      f1 == IF hasSep THEN [f EXCEPT !.sp = s.p] ELSE f
      cand == IF hasSep THEN r.sep.r ELSE r.r
      can == (hasSep \/ tryItem) /\ ~skip
      t == IF can THEN Try(c, cand, s) ELSE B(FALSE, 0, 0, <<>>)
  IN
  IF t.ok THEN
     Finish(c, cand, t, Push([RecDone(s, f.rb, TRUE) EXCEPT !.a = <<>>],
                             <<[f1 EXCEPT !.ph = IF hasSep THEN "rsep" ELSE "ritem", !.rb = s.p]>>))
  ELSE
     LET s1 == IF can THEN Cancel(c, cand, t, s) ELSE s
         tt == Try(c, r.t, s1) IN
     IF tt.ok THEN LTDone(c, RecDone(s1, f.rb, TRUE), f1, tt)
     ELSE LET s2 == Cancel(c, r.t, tt, s1) IN
          IF LimitOk(c, r.lim, s2.p) \/ s2.p >= Len(c.inp)
          THEN Fail(RecDone(s2, f.rb, FALSE))
          ELSE LTRecover(c, [s2 EXCEPT !.p = @ + 1], f1, FALSE)

(* ------------------------------------------------------------------------ *)
(* Error recovery                                                           *)
RECURSIVE RecoScan(_,_,_,_)
RecoScan(c, s, r, b) ==
  LET alt == [o |-> "alt", rs |-> r.rs]
      one == Len(r.rs) = 1
      br  == IF one THEN r.rs[1] ELSE alt
      t == Try(c, br, s) IN
  IF t.ok THEN Finish(c, br, t, RecDone(s, b, TRUE))
  ELSE LET s1 == Cancel(c, br, t, s) IN
       IF LimitOk(c, r.lim, s1.p) \/ s1.p >= Len(c.inp) THEN Fail(RecDone(s1, b, FALSE))
       ELSE RecoScan(c, [s1 EXCEPT !.p = @ + 1], r, b)

Recover(c, s, rec) ==
  CASE rec.o = "none" ->
         LET s1 == SkipWs(c, Emit(s, Ev("rs", "", s.p, s.p, ""))) IN
         IF s1.m = "fail" THEN Fail(Emit(s1, Ev("rc", "", s1.p, s1.p, "")))
         ELSE Emit(s1, Ev("rf", "", s1.p, s1.p, ""))
    [] rec.o \in {"find","reco"} -> Parse(c, s, rec)
    [] OTHER -> Push(Emit(s, Ev("rs", "", s.p, s.p, "")), <<rec, [o |-> "$recw"]>>)

(* ------------------------------------------------------------------------ *)
(* Delimited                                                                *)
RECURSIVE DelLoop(_,_,_)

DelFlush(c, r, s, f, e) ==     \* characters [f.cb, e) become one token and one sink call
  IF f.cb = e THEN [s |-> s, f |-> f]
  ELSE [s |-> Emit(s, TokEv(TokKind(r.cc), f.cb, e)), f |-> [f EXCEPT !.sink = Append(@, "(" \o Lexeme(f.cb, e) \o ")")]]

CcErr(t, p) == IF t.o = "errtok" THEN ErrEv(t.tag, p, p) ELSE Ev("err", "cc", p, p, t.n)
CcOf(t) == IF t.o = "errtok" THEN t.r ELSE t

RECURSIVE EscIdx(_,_,_,_)
EscIdx(c, escs, p, i) ==
  IF i > Len(escs) THEN 0 ELSE IF MatchTok(c, escs[i].t, p).ok THEN i ELSE EscIdx(c, escs, p, i+1)

EscFinish(c, s, f, b) ==    \* after an escape sequence: characters restart here
  DelLoop(c, s, [f EXCEPT !.cb = s.p])

DelLoop(c, s, f) ==
  LET r == f.r
      tc == Try(c, r.close, s) IN
  IF tc.ok THEN
     LET x == DelFlush(c, r, s, f, s.p) IN
     Finish(c, r.close, tc, [x.s EXCEPT !.a = Append(f.a, SinkVal(x.f))])
  ELSE
  LET s0 == Cancel(c, r.close, tc, s) IN
  IF s0.p >= Len(c.inp) \/ (r.lim.o # "none" /\ MatchTok(c, r.lim, s0.p).ok) THEN
     LET x == DelFlush(c, r, s0, f, s0.p) IN Fail(Emit(x.s, ErrEv(r.ltag, f.db, s0.p)))
  ELSE
  LET ei == EscIdx(c, r.escs, s0.p, 1) IN
  IF ei # 0 THEN
     LET esc == r.escs[ei]
         x == DelFlush(c, r, s0, f, s0.p)
         te == MatchTok(c, esc.t, s0.p)
         s1 == SkipWs(c, [Emit(x.s, TokEv(TokKind(esc.t), s0.p, te.end)) EXCEPT !.p = te.end])
         ta == TryAlt(c, esc.rs, s1, 1, <<>>)
     IN IF ta.ok THEN
          LET s2 == EmitAll(s1, CancelAlt(c, esc.rs, [ta EXCEPT !.sub = SubSeq(@, 1, ta.i - 1)], s1.p, 1)) IN
          Finish(c, esc.rs[ta.i], ta.sub[ta.i], Push([s2 EXCEPT !.a = <<>>], <<[x.f EXCEPT !.ph = "esc"]>>))
        ELSE
          LET s2 == EmitAll(s1, CancelAlt(c, esc.rs, ta, s1.p, 1))
              s3 == Emit(s2, ErrEv("invalid escape sequence", s0.p, s2.p)) IN
          DelLoop(c, s3, [x.f EXCEPT !.cb = s3.p])
  ELSE
  LET e == ClassEnd(CcOf(r.cc).c, c.enc, c.inp, s0.p) IN
  IF e # -1 THEN DelLoop(c, [s0 EXCEPT !.p = e], f)
  ELSE LET d == IF CcOf(r.cc).ascii THEN [end |-> s0.p + 1] ELSE Decode(c.enc, c.inp, s0.p)
           e2 == IF d.end = s0.p THEN s0.p + 1 ELSE d.end
           x == DelFlush(c, r, s0, f, s0.p)
           s1 == EmitAll(x.s, <<CcErr(r.cc, s0.p), Ev("rs", "", s0.p, s0.p, ""),
                                TokEv("error token", s0.p, e2), Ev("rf", "", e2, e2, "")>>)
       IN DelLoop(c, [s1 EXCEPT !.p = e2], [x.f EXCEPT !.cb = e2])

(* ------------------------------------------------------------------------ *)
(* Finish: take the branch r whose condition t succeeded at s.p             *)
Finish(c, r, t, s) ==
  CASE IsToken(r) -> Consume(c, s, TokKind(r), t.e)
    [] r.o = "cap" -> PushArg(Consume(c, s, TokKind(r.r), t.e), Lexeme(s.p, t.e))
    [] r.o \in {"else","err","break"} -> Parse(c, s, r)
    [] r.o = "br" -> Finish(c, r.c, t, Push(s, r.rs))
    [] r.o = "alt" ->
         LET s1 == EmitAll(s, CancelAlt(c, r.rs, [t EXCEPT !.sub = SubSeq(@, 1, t.i - 1)], s.p, 1)) IN
         Finish(c, r.rs[t.i], t.sub[t.i], s1)
    [] r.o = "prd" -> Finish(c, c.prods[r.n].rule, t.sub[1], StartPrd(c, s, r.n))
    [] r.o = "recb" ->
         LET s1 == EnterDepth(c, s) IN
         IF s1.m = "fail" THEN s1 ELSE Finish(c, c.prods[r.n].rule, t.sub[1], StartPrd(c, s1, r.n))
    [] r.o = "nowt" ->
         IF s.w THEN Finish(c, r.r, t, [Push(s, <<[o |-> "$nowt"]>>) EXCEPT !.w = FALSE])
         ELSE Finish(c, r.r, t, s)
    [] r.o = "try" ->
         Finish(c, r.r, t, Push(s, <<[o |-> "$try", rec |-> r.rec, a |-> s.a, nv |-> Len(s.v)]>>))
    [] r.o = "posr" ->
         Finish(c, r.r, t, PushArg(Emit(s, TokEv("position", s.p, s.p)), "@" \o ToString(s.p)))
    [] r.o = "capp" -> Finish(c, r.r, t, Push([s EXCEPT !.a = <<>>], <<[o |-> "$capp", a |-> s.a, b |-> s.p]>>))
    [] r.o = "must" -> Finish(c, r.r, t, s)
    [] r.o = "pas" -> Finish(c, r.r, t, Push([s EXCEPT !.a = <<>>], <<[o |-> "$pas", r |-> r, a |-> s.a]>>))
    [] r.o = "mem" -> Finish(c, r.r, t, PushArg(s, "." \o r.m))
    [] r.o = "inline" -> Finish(c, c.prods[r.n].rule, t, s)
    [] r.o = "eof" -> Emit(s, TokEv("EOF", s.p, s.p))
    [] r.o = "eol" -> IF s.p = Len(c.inp) THEN Emit(s, TokEv("EOF", s.p, s.p)) ELSE Parse(c, s, NewlineTok)
    [] r.o \in {"peek","peeknot","look"} -> Emit(s, Ev("bt", "", t.i, t.e, ""))
    [] r.o = "ident" -> PushArg(Consume(c, s, "identifier", t.e), Lexeme(s.p, t.e))
    [] r.o = "sym" -> PushArg(Consume(c, s, IF r.t.o = "none" THEN "identifier" ELSE TokKind(r.t), t.e), r.tab.vs[t.i])
    [] r.o = "int" -> IntFinish(c, r, [Emit(s, TokEv(TokKind(r.t), s.p, t.e)) EXCEPT !.p = t.e], s.p, t.e)
    [] r.o = "bint" -> BintFinish(c, r, [Emit(s, TokEv(TokKind(r.t), s.p, t.e)) EXCEPT !.p = t.e], s.p, t.e)
    [] r.o = "pad" -> PadFinish(c, r, [Emit(s, TokEv("any", s.p, t.e)) EXCEPT !.p = t.e], s.p, t.e)
    [] r.o = "list" ->
         Finish(c, r.r, t, Push([s EXCEPT !.a = <<>>], <<ListFrame(r, s, "item")>>))
    [] r.o = "op" -> PushArg(Finish(c, r.r, t, s), OpVal(r, s.p))
    [] r.o \in {"cvis","cveq"} -> s
    [] r.o = "cvspan" -> Finish(c, r.r, t, Push(s, <<[o |-> "$cvspan", id |-> r.id, x |-> r.x, b |-> s.p]>>))
    [] r.o = "cidcap" -> VarSet(Finish(c, r.r, t, s), r.id, SubSeq(c.inp, s.p + 1, t.e))
    [] r.o = "cidrem" -> Consume(c, s, "identifier", t.e)
    [] r.o = "delim" ->
         LET rest == <<[o |-> "delrest", r |-> r]>> IN
         IF s.w THEN Finish(c, r.open, t, [Push(s, rest \o <<[o |-> "$nowt"]>>) EXCEPT !.w = FALSE])
         ELSE Finish(c, r.open, t, Push(s, rest))

(* ------------------------------------------------------------------------ *)
(* Expressions. r = [o: "expr", n: production, ops, atom, max, min, tags];  *)
(* an operation op = [k, nm, g: group, lhs, rhs: binding powers, alts: its  *)
(* operators [l: literal, val, rs: what follows]]. While an expression is   *)
(* parsed, s.a holds the value of what was parsed so far, if any.           *)
ExPost(r, min) == SelectSeq(r.ops, LAMBDA x : x.k # "prefix" /\ x.lhs >= min)
ExPre(r, min) == SelectSeq(r.ops, LAMBDA x : x.k = "prefix" /\ x.rhs >= min)

RECURSIVE ExAlts(_)
ExAlts(ops) ==
  IF ops = <<>> THEN <<>>
  ELSE [i \in 1..Len(ops[1].alts) |-> [op |-> ops[1], alt |-> ops[1].alts[i]]] \o ExAlts(Tail(ops))

(* the operator at p: [ok, end, op, alt] *)
ExOp(c, ops, p) ==
  LET as == ExAlts(ops)
      m == LongestLit(c, [i \in 1..Len(as) |-> as[i].alt.l], p) IN
  IF as = <<>> \/ ~m.ok THEN [ok |-> FALSE, end |-> p] ELSE [ok |-> TRUE, end |-> m.end, op |-> as[m.i].op, alt |-> as[m.i].alt]

(* consume the operator m, then what follows it, then f *)
ExTake(c, s, m, f) ==
  LET s1 == Push(s, m.alt.rs \o <<f>>)
      v == IF m.alt.val = "" THEN <<>> ELSE <<IF m.alt.val = "@" THEN "@" \o ToString(s.p) ELSE m.alt.val>>
  IN Consume(c, [s1 EXCEPT !.a = v], TokKind(m.alt.l), m.end)

ExApply(c, s, r, m) ==
  IF s.ex.n >= r.max
  THEN Fail([Emit(s, ErrEv(r.tags.nest, s.p, m.end)) EXCEPT !.ex.n = @ + 1])
  ELSE LET s1 == [s EXCEPT !.ex.n = @ + 1]
           s2 == IF m.op.g = 0 \/ s.ex.g = m.op.g THEN s1
                 ELSE IF s.ex.g = 0 THEN [s1 EXCEPT !.ex.g = m.op.g]
                 ELSE Emit(s1, ErrEv(r.tags.group, s.p, m.end))
       IN ExTake(c, s2, m, [o |-> "$exop", r |-> r, op |-> m.op, a |-> s.a])

ExLhs(c, s, r, min) ==
  LET m == ExOp(c, ExPre(r, min), s.p) IN
  IF m.ok THEN ExApply(c, Push(Emit(s, Ev("os", "", s.p, s.p, "")), <<[o |-> "$exfin"]>>), r, m)
  ELSE Push(s, <<r.atom, [o |-> "$exatom", r |-> r]>>)

ExParse(c, s, r, min) ==
  IF ExPost(r, min) = <<>> THEN ExLhs(c, s, r, min)
  ELSE ExLhs(c, Push(Emit(s, Ev("os", "", s.p, s.p, "")), <<[o |-> "$exloop", r |-> r, min |-> min]>>), r, min)

ExLoop(c, s, r, min) ==
  LET m == ExOp(c, ExPost(r, min), s.p) IN
  IF m.ok THEN ExApply(c, Push(s, <<[o |-> "$exloop", r |-> r, min |-> min]>>), r, m)
  ELSE Emit(s, Ev("of", "", s.p, s.p, ""))

ExVal(r, as) == <<r.n \o "(" \o Join(as) \o ")">>
ExDone(s, op) == Emit(s, Ev("oo", op.nm, s.p, s.p, ""))
ExSink(f, as) == IF as = <<>> THEN f.sink ELSE Append(f.sink, "(" \o Join(as) \o ")")

(* an operator and what follows it were parsed: s.a has its values *)
ExAfterOp(c, s, f) ==
  LET s0 == [s EXCEPT !.a = <<>>] IN
  CASE f.op.k = "list" ->
         LET g == [o |-> "$exlist", r |-> f.r, op |-> f.op, sink |-> ExSink([sink |-> ExSink([sink |-> <<>>], f.a)], s.a)]
         IN ExParse(c, Push(s0, <<g>>), f.r, f.op.rhs)
    [] f.op.k = "prefix" -> ExParse(c, Push(s0, <<[o |-> "$expre", r |-> f.r, op |-> f.op, v |-> s.a]>>), f.r, f.op.rhs)
    [] f.op.k = "postfix" -> ExDone([s EXCEPT !.a = ExVal(f.r, f.a \o s.a)], f.op)
    [] OTHER -> ExParse(c, Push(s0, <<[o |-> "$exin", r |-> f.r, op |-> f.op, a |-> f.a, v |-> s.a]>>), f.r, f.op.rhs)

ExAfterRhs(c, s, f) ==
  LET s1 == [s EXCEPT !.a = ExVal(f.r, f.a \o f.v \o s.a)]
      m == ExOp(c, <<f.op>>, s.p) IN
  ExDone(IF f.op.k = "single" /\ m.ok THEN Emit(s1, ErrEv(f.r.tags.chain, s.p, m.end)) ELSE s1, f.op)

ExAfterItem(c, s, f) ==
  LET sink == ExSink(f, s.a)
      m == ExOp(c, <<f.op>>, s.p) IN
  IF ~m.ok THEN ExDone([s EXCEPT !.a = <<SinkVal([sink |-> sink])>>], f.op)
  ELSE ExTake(c, s, m, [f EXCEPT !.o = "$exlistop", !.sink = sink])

(* ------------------------------------------------------------------------ *)
(* Combinations, flags, members, repetition with a parsed count             *)
CurPrd(s) == LET is == {i \in 1..Len(s.k) : s.k[i].o \in {"$prd","$root"}} IN
             IF is = {} THEN "" ELSE s.k[CHOOSE i \in is : \A j \in is : i <= j].n

RECURSIVE Flatten(_)
Flatten(xs) == IF xs = <<>> THEN <<>> ELSE xs[1] \o Flatten(Tail(xs))
SinkOf(c, s, xs) ==       \* the value of the sink of the current production
  LET pr == c.prods[CurPrd(s)] IN
  IF pr.val = "agg" THEN AggVal(pr.fields, Flatten(xs))
  ELSE SinkVal([sink |-> [i \in 1..Len(xs) |-> "(" \o Join(xs[i]) \o ")"]])

CombNext(c, s, f) ==
  IF f.n = Len(f.r.rs) THEN [s EXCEPT !.a = Append(f.a, SinkOf(c, s, f.sink))]
  ELSE LET t == TryAlt(c, f.r.rs, s, 1, <<>>) IN
       IF t.ok THEN Finish(c, [o |-> "alt", rs |-> f.r.rs], t, Push([s EXCEPT !.a = <<>>], <<[f EXCEPT !.i = t.i, !.b = s.p]>>))
       ELSE LET s1 == EmitAll(s, CancelAlt(c, f.r.rs, t, s.p, 1)) IN
            IF f.r.partial THEN [s1 EXCEPT !.a = Append(f.a, SinkOf(c, s, f.sink))]
            ELSE Fail(Emit(s1, ErrEv(f.r.miss, s.p, s.p)))

CombDone(c, s, f) ==
  IF f.i \in f.done
  THEN CombNext(c, Emit(s, ErrEv(f.r.dup, f.b, s.p)), f)
  ELSE CombNext(c, s, [f EXCEPT !.done = @ \union {f.i}, !.n = @ + 1, !.sink = IF s.a = <<>> THEN @ ELSE Append(@, s.a)])

RECURSIVE BitAnd(_,_)
BitAnd(x, y) == IF x = 0 \/ y = 0 THEN 0 ELSE (IF x % 2 = 1 /\ y % 2 = 1 THEN 1 ELSE 0) + 2 * BitAnd(x \div 2, y \div 2)
BitOr(x, y) == (x + y) - BitAnd(x, y)

RECURSIVE Flags(_,_,_,_)
Flags(c, s, r, acc) ==
  LET t == Try(c, r.r, s) IN
  IF ~t.ok THEN PushArg(s, ToString(acc))
  ELSE LET v == r.fv[t.i]
           s1 == Finish(c, r.r, t, s)
           s2 == IF BitAnd(acc, v) = v THEN Emit(s1, ErrEv(r.dup, s.p, s1.p)) ELSE s1 IN
       IF s1.m = "fail" THEN s1 ELSE Flags(c, [s2 EXCEPT !.a = s.a], r, BitOr(acc, v))

(* a count beyond the range stands for more items than any input of the corpora has *)
StrToNat(x) == IF \E n \in 0..320 : ToString(n) = x THEN CHOOSE n \in 0..320 : ToString(n) = x ELSE 60

RepItems(n, r, sep) ==
  IF n = 0 THEN <<>>
  ELSE LET RECURSIVE R(_)
           R(i) == IF i = 1 THEN (IF sep.o = "none" THEN <<r>> ELSE <<r, [o |-> "trailing", sep |-> sep]>>)
                   ELSE (IF sep.o = "none" THEN <<r>> ELSE <<r, sep.r>>) \o R(i - 1)
       IN R(n)

RepNext(s, f) ==
  IF f.rest = <<>> THEN
     [s EXCEPT !.a = CASE f.mode = "list" -> Append(f.a, SinkVal(f))
                       [] f.mode = "cap" -> Append(f.a, Lexeme(f.b, s.p))
                       [] OTHER -> f.a]
  ELSE Push([s EXCEPT !.a = <<>>], <<Head(f.rest), [f EXCEPT !.rest = Tail(@)]>>)

(* ------------------------------------------------------------------------ *)
(* Scanners: a program of calls to a scanner. Every call shows its result,   *)
(* the position after it, and "!" unless the scanner is in its normal state. *)
ScShow(s, txt) ==
  [s EXCEPT !.sc.out = Append(@, txt \o "@" \o ToString(s.p) \o (IF s.sc.st = "n" THEN "" ELSE "!"))]
(* quiet: the call does not return whether it succeeded *)
ScFrame(s, txt, quiet) == [o |-> "$scp", txt |-> txt, bad |-> IF quiet THEN txt ELSE txt \o "-", nv |-> Len(s.v)]

ScDiscard(c, s, t) ==      \* [s, ok]
  IF s.sc.st = "f" THEN [s |-> s, ok |-> FALSE]
  ELSE LET m == MatchTok(c, t, s.p)  e == IF m.ok THEN m.end ELSE s.p IN
       [s |-> [Emit(s, TokEv("error token", s.p, e)) EXCEPT !.p = e], ok |-> m.ok]

RECURSIVE ScUntil(_,_,_)
ScUntil(c, s, r) ==       \* while not at the end and not peek(r): discard(t)
  IF s.p = Len(c.inp) THEN s
  ELSE LET f == s.sc.st = "f"
           t == Try(c, r.r, s)
           s1 == IF f THEN s ELSE Emit(s, Ev("bt", "", s.p, t.e, ""))
           d == ScDiscard(c, s1, r.t) IN
       IF ~f /\ t.ok THEN s1
       ELSE IF d.ok THEN ScUntil(c, d.s, r) ELSE d.s

ScDone(s, f) ==
  LET v == "scan(" \o Join(s.sc.out) \o ")"
      ok == f.mode = "always" \/ (f.mode # "never" /\ s.sc.st = "n")
      s1 == [s EXCEPT !.sc = f.sc, !.val = IF f.mode = "solo" THEN v ELSE @]
  IN IF ~ok THEN Fail(s1) ELSE [s1 EXCEPT !.a = IF f.void THEN <<>> ELSE <<v>>]

(* try a branch: take it, or report its cancellation and continue with els  *)
RepSeq(n, r, sep) ==
  LET RECURSIVE R(_)
      R(i) == IF i = 1 THEN (IF sep.o = "none" THEN <<r>> ELSE <<r, [o |-> "trailing", sep |-> sep]>>)
              ELSE (IF sep.o = "none" THEN <<r>> ELSE <<r, sep.r>>) \o R(i - 1)
  IN R(n)

RECURSIVE UnwindLoop(_)
UnwindLoop(s) ==      \* break: drop the rest of the loop body
  LET h == Head(s.k) IN
  CASE h.o = "$loop" -> [KeepVars(s, h.nv) EXCEPT !.k = Tail(@), !.a = h.a]
    [] h.o = "$nowt" -> UnwindLoop([s EXCEPT !.k = Tail(@), !.w = TRUE])
    [] OTHER -> UnwindLoop([s EXCEPT !.k = Tail(@)])

RECURSIVE UnwindPrd(_)
UnwindPrd(s) ==       \* return: drop the rest of the production
  LET h == Head(s.k) IN
  CASE h.o \in {"$prd","$final"} -> s
    [] h.o = "$nowt" -> UnwindPrd([s EXCEPT !.k = Tail(@), !.w = TRUE])
    [] OTHER -> UnwindPrd([s EXCEPT !.k = Tail(@)])

ParseTok(c, s, r) ==
  LET m == MatchTok(c, r, s.p) IN
  IF m.ok THEN Consume(c, s, TokKind(r), m.end)
  ELSE Fail([EmitAll(s, <<TokEv("error token", s.p, m.end), m.err>>) EXCEPT !.p = m.end])

Parse(c, s, r) ==
  CASE IsToken(r) -> ParseTok(c, s, r)
    [] r.o = "cap" ->
         LET m == MatchTok(c, r.r, s.p) s1 == ParseTok(c, s, r.r) IN
         IF m.ok THEN PushArg(s1, Lexeme(s.p, m.end)) ELSE s1
    [] r.o = "capp" -> Push([s EXCEPT !.a = <<>>], <<r.r, [o |-> "$capp", a |-> s.a, b |-> s.p]>>)
    [] r.o = "seq" -> Push(s, r.rs)
    [] r.o = "br" -> Push(s, <<r.c>> \o r.rs)
    [] r.o = "else" -> s
    [] r.o = "alt" ->
         LET t == TryAlt(c, r.rs, s, 1, <<>>) IN
         IF t.ok THEN Finish(c, r, t, s)
         ELSE Fail(Emit(EmitAll(s, CancelAlt(c, r.rs, t, s.p, 1)), ErrEv("exhausted choice", s.p, s.p)))
    [] r.o \in {"opt","if"} ->
         LET t == Try(c, r.r, s) IN
         IF t.ok THEN Finish(c, r.r, t, s)
         ELSE LET s1 == Cancel(c, r.r, t, s) IN IF r.o = "opt" THEN PushArg(s1, "nil") ELSE s1
    [] r.o = "nullopt" -> PushArg(s, "nil")
    [] r.o = "while" ->
         LET t == Try(c, r.r, s) IN
         IF t.ok THEN Finish(c, r.r, t, Push([s EXCEPT !.a = <<>>], <<[o |-> "$while", r |-> r, a |-> s.a, nv |-> Len(s.v)]>>))
         ELSE Cancel(c, r.r, t, s)
    [] r.o = "whileone" -> Push(s, <<r.r, [o |-> "while", r |-> r.r]>>)
    [] r.o = "dowhile" -> Push(s, <<r.r, [o |-> "while", r |-> [o |-> "br", c |-> r.c, rs |-> <<r.r>>]]>>)
    [] r.o = "loop" -> Push([s EXCEPT !.a = <<>>], <<r.r, [o |-> "$loop", r |-> r, a |-> s.a, nv |-> Len(s.v)]>>)
    [] r.o = "break" -> UnwindLoop(s)
    [] r.o = "ret" -> UnwindPrd(s)
    [] r.o = "prd" -> ParsePrd(c, s, r.n)
    [] r.o \in {"rec","recb"} ->
         LET s1 == EnterDepth(c, s) IN IF s1.m = "fail" THEN s1 ELSE ParsePrd(c, s1, r.n)
    [] r.o = "inline" -> Push(s, <<c.prods[r.n].rule>>)
    [] r.o = "nowt" ->
         IF s.wp # "" /\ s.w
         THEN [Push(s, <<r.r, [o |-> "$nowt"]>>) EXCEPT !.w = FALSE]
         ELSE Push(s, <<r.r>>)
    [] r.o = "wsr" -> SkipRule(c, r.r, s)
    [] r.o = "eof" ->
         IF s.p = Len(c.inp) THEN Emit(s, TokEv("EOF", s.p, s.p)) ELSE Emit(s, ErrEv("expected EOF", s.p, s.p))
    [] r.o = "eol" -> IF s.p = Len(c.inp) THEN Emit(s, TokEv("EOF", s.p, s.p)) ELSE ParseTok(c, s, NewlineTok)
    [] r.o = "peek" ->
         LET t == Try(c, r, s)
             s1 == IF t.ok THEN s ELSE Emit(s, ErrEv(r.tag, s.p, t.e)) IN
         Emit(s1, Ev("bt", "", s.p, t.e, ""))
    [] r.o = "peeknot" ->
         LET t == Try(c, r, s) IN
         IF t.ok THEN Emit(s, Ev("bt", "", s.p, t.e, ""))
         ELSE [EmitAll(s, <<ErrEv(r.tag, s.p, t.e), Ev("rs", "", s.p, s.p, ""),
                            TokEv("error token", s.p, t.e), Ev("rf", "", t.e, t.e, "")>>) EXCEPT !.p = t.e]
    [] r.o = "look" ->
         LET t == Try(c, r, s)
             s1 == IF t.ok THEN s ELSE Emit(s, ErrEv(r.tag, s.p, t.e)) IN
         Emit(s1, Ev("bt", "", s.p, t.e, ""))
    [] r.o = "pos" -> PushArg(Emit(s, TokEv("position", s.p, s.p)), "@" \o ToString(s.p))
    [] r.o = "posr" -> Push(PushArg(Emit(s, TokEv("position", s.p, s.p)), "@" \o ToString(s.p)), <<r.r>>)
    [] r.o = "ident" ->
         LET e == IdPattern(c, r.l, r.t, s.p) IN
         IF e = -1 THEN Fail(EmitAll(s, <<TokEv("error token", s.p, s.p), Ev("err", "cc", s.p, s.p, r.ln)>>))
         ELSE LET s1 == [Emit(s, TokEv("identifier", s.p, e)) EXCEPT !.p = e]
                  s2 == IF Reserved(c, r, s.p, e) THEN Emit(s1, ErrEv("reserved identifier", s.p, e)) ELSE s1
              IN PushArg(SkipWs(c, s2), Lexeme(s.p, e))
    [] r.o = "sym" ->
         LET t == Try(c, r, s) IN
         IF r.t.o = "none" THEN
            (IF t.ok THEN Finish(c, r, t, s) ELSE Fail(Emit(s, ErrEv(r.tag, s.p, s.p))))
         ELSE IF r.t.o = "idp" THEN
            IF t.ok THEN Finish(c, r, t, s)
            ELSE LET s1 == ParseTok(c, s, r.t) IN
                 IF s1.m = "fail" THEN s1 ELSE Fail(Emit(s1, ErrEv(r.tag, s.p, s1.p)))
         ELSE LET m == MatchTok(c, r.t, s.p)  s1 == ParseTok(c, s, r.t) IN
              IF s1.m = "fail" THEN s1
              ELSE LET i == SymWhole(c, r.tab, s.p, m.end) IN
                   IF i = 0 THEN Fail(Emit(s1, ErrEv(r.tag, s.p, m.end)))
                   ELSE PushArg(s1, r.tab.vs[i])
    [] r.o = "int" ->
         LET m == MatchTok(c, r.t, s.p) IN
         IF m.ok THEN Finish(c, r, B(TRUE, m.end, 0, <<>>), s)
         ELSE LET e == RunClass(c, r.base.c, m.end)
                  s1 == [Emit(s, m.err) EXCEPT !.p = e] IN
              IF e = s.p THEN Fail(s1)
              ELSE IntFinish(c, r, EmitAll(s1, <<Ev("rs", "", s.p, s.p, ""), TokEv("digits", s.p, e), Ev("rf", "", e, e, "")>>), s.p, e)
    [] r.o \in {"bint", "pad"} ->
         LET m == MatchTok(c, r.t, s.p) IN
         IF m.ok THEN Finish(c, r, B(TRUE, m.end, 0, <<>>), s) ELSE ParseTok(c, s, r.t)
    [] r.o = "op" -> LET s1 == ParseTok(c, s, r.r) IN IF s1.m = "fail" THEN s1 ELSE PushArg(s1, OpVal(r, s.p))
    [] r.o = "err" ->
         LET e == IF r.r.o = "none" THEN s.p ELSE SubMatch(c, r.r, s.p).end IN
         Fail(Emit(s, ErrEv(r.tag, s.p, e)))
    [] r.o = "must" ->
         LET t == Try(c, r.r, s) IN
         IF t.ok THEN Finish(c, r.r, t, s)
         ELSE LET s1 == Cancel(c, r.r, t, s)
                  e == IF r.er.o = "none" THEN s.p ELSE SubMatch(c, r.er, s.p).end IN
              Fail(Emit(s1, ErrEv(r.tag, s.p, e)))
    [] r.o = "try" ->
         Push(s, <<r.r, [o |-> "$try", rec |-> r.rec, a |-> s.a, nv |-> Len(s.v)]>>)
    [] r.o = "find" ->
         LET m == FindFrom(c, r.ns, r.lim, s.p)
             s1 == [Emit(s, Ev("rs", "", s.p, s.p, "")) EXCEPT !.p = m.at] IN
         IF m.ok THEN RecDone(s1, s.p, TRUE) ELSE Fail(RecDone(s1, s.p, FALSE))
    [] r.o = "reco" -> RecoScan(c, Emit(s, Ev("rs", "", s.p, s.p, "")), r, s.p)
    [] r.o = "list" -> Push([s EXCEPT !.a = <<>>], <<r.r, ListFrame(r, s, "item")>>)
    [] r.o = "ttry" ->      \* terminator.try_(rule)
         Push(s, <<r.r, [o |-> "$try", rec |-> [o |-> "reco", rs |-> <<r.t>>, lim |-> r.lim], a |-> s.a,
                         nv |-> Len(s.v), term |-> r.t]>>)
    [] r.o \in {"topt","toptlist"} ->
         LET t == Try(c, r.t, s) IN
         IF t.ok THEN Finish(c, r.t, t, PushArg(s, "nil"))
         ELSE Push(Cancel(c, r.t, t, s), <<IF r.o = "topt" THEN [r EXCEPT !.o = "ttry"] ELSE [r EXCEPT !.o = "tlist"]>>)
    [] r.o = "tlist" -> Push([s EXCEPT !.a = <<>>], <<r.r, LTFrame(r, s)>>)
    [] r.o = "times" -> Push(s, RepSeq(r.n, r.r, r.sep))
    [] r.o = "trailing" ->
         (CASE r.sep.k = "ign" -> s
            [] r.sep.k = "tsep" -> Parse(c, s, [o |-> "if", r |-> r.sep.r])
            [] r.sep.k = "sep" ->
                 LET t == Try(c, r.sep.r, s) IN
                 IF t.ok THEN Finish(c, r.sep.r, t, Push(s, <<[o |-> "$nsep", tag |-> r.sep.tag, b |-> s.p]>>))
                 ELSE Cancel(c, r.sep.r, t, s))
    [] r.o = "delim" ->
         LET items == <<r.open, [o |-> "delrest", r |-> r]>> IN
         IF s.wp # "" /\ s.w THEN [Push(s, items \o <<[o |-> "$nowt"]>>) EXCEPT !.w = FALSE]
         ELSE Push(s, items)
    [] r.o = "delrest" ->
         DelLoop(c, [s EXCEPT !.a = <<>>],
                 [o |-> "$del", r |-> r.r, a |-> s.a, sink |-> <<>>, cb |-> s.p, db |-> s.p, ph |-> "", nv |-> Len(s.v)])
    [] r.o = "cvnew" -> [s EXCEPT !.v = <<[id |-> r.id, x |-> r.x]>> \o @]
    [] r.o = "cvset" -> VarSet(s, r.id, r.x)
    [] r.o = "cvtoggle" -> VarSet(s, r.id, 1 - VarGet(s, r.id))
    [] r.o = "cvadd" -> VarSet(s, r.id, VarGet(s, r.id) + r.x)
    [] r.o = "cvval" -> PushArg(s, IF r.flag THEN (IF VarGet(s, r.id) = 1 THEN "true" ELSE "false") ELSE ToString(VarGet(s, r.id)))
    [] r.o = "cvis" -> s        \* only a branch condition asks
    [] r.o = "cveq" -> IF Try(c, r, s).ok THEN s ELSE Emit(s, ErrEv("unequal counts", s.p, s.p))
    [] r.o = "cidcap" ->
         LET s1 == Parse(c, s, r.r) IN
         IF s1.m = "fail" THEN s1 ELSE VarSet(s1, r.id, SubSeq(c.inp, s.p + 1, IdPattern(c, r.r.l, r.r.t, s.p)))
    [] r.o = "cidrem" ->
         LET e == IdPattern(c, r.r.l, r.r.t, s.p)
             s1 == ParseTok(c, s, [o |-> "idp", l |-> r.r.l, t |-> r.r.t, ln |-> r.r.ln]) IN
         IF s1.m = "fail" \/ SubSeq(c.inp, s.p + 1, e) = VarGet(s, r.id) THEN s1
         ELSE Emit(s1, ErrEv(r.tag, s.p, e))
    [] r.o = "cvspan" ->    \* counter += sign * (units consumed by the rule)
         Push(s, <<r.r, [o |-> "$cvspan", id |-> r.id, x |-> r.x, b |-> s.p]>>)
    [] r.o = "comb" ->
         CombNext(c, s, [o |-> "$comb", r |-> r, a |-> s.a, done |-> {}, n |-> 0, i |-> 0, b |-> s.p, sink |-> <<>>])
    [] r.o = "flags" -> Flags(c, s, r, r.def)
    [] r.o = "flag" ->
         LET t == Try(c, r.r, s) IN
         IF t.ok THEN Finish(c, r.r, t, PushArg(s, r.t)) ELSE PushArg(Cancel(c, r.r, t, s), r.f)
    [] r.o = "mem" -> Push(PushArg(s, "." \o r.m), <<r.r>>)
    [] r.o = "pas" -> Push([s EXCEPT !.a = <<>>], <<r.r, [o |-> "$pas", r |-> r, a |-> s.a]>>)
    [] r.o = "rep" ->
         RepNext([s EXCEPT !.a = Tail(@)],
                 [o |-> "$rep", mode |-> r.mode, rest |-> RepItems(StrToNat(Head(s.a)), r.r, r.sep),
                  sink |-> <<>>, a |-> Tail(s.a), b |-> s.p])
    [] r.o = "eff" -> IF r.val = "" THEN s ELSE PushArg(s, r.val)
    [] r.o = "subg" ->
         LET s1 == Push(Emit(s, Ev("ps", r.n, s.p, s.p, "")), <<[o |-> "$prd", n |-> r.n, a |-> s.a, nv |-> 0, wp |-> s.wp, v |-> s.v]>>)
             s2 == SkipWs(c, [s1 EXCEPT !.wp = IF c.prods[r.n].ws.o # "none" THEN r.n ELSE "", !.a = <<>>, !.v = <<>>]) IN
         IF s2.m = "fail" THEN s2 ELSE Push(s2, <<c.prods[r.n].rule>>)
    [] r.o = "scan" ->
         LET s1 == Push(s, r.prog \o <<[o |-> "$scan", mode |-> r.mode, void |-> r.void, sc |-> s.sc]>>) IN
         [s1 EXCEPT !.a = <<>>, !.sc = [st |-> "n", mark |-> s.p, out |-> IF r.mode = "solo" THEN <<>> ELSE <<"b" \o ToString(s.p) \o " d" \o ToString(s.dep)>> \o s.a]]
    [] r.o = "scp" ->
         IF s.sc.st = "f" THEN ScShow(s, IF r.quiet THEN "p" ELSE "p-")
         ELSE Push([s EXCEPT !.a = <<>>], <<r.r, ScFrame(s, "p", r.quiet)>>)
    [] r.o = "scb" ->
         IF s.sc.st = "f" THEN Push(ScShow(s, "b-"), r.no)
         ELSE LET t == Try(c, r.r, s) IN
              IF t.ok THEN Finish(c, r.r, t, Push([s EXCEPT !.a = <<>>], <<ScFrame(s, "b", r.quiet)>> \o r.yes))
              ELSE Push(ScShow(Cancel(c, r.r, t, s), "b-"), r.no)
    [] r.o = "scw" ->
         IF s.sc.st = "f" THEN s
         ELSE LET t == Try(c, r.r, s) IN
              IF t.ok THEN Finish(c, r.r, t, Push([s EXCEPT !.a = <<>>], <<ScFrame(s, "w", TRUE)>> \o r.body \o <<r>>))
              ELSE Cancel(c, r.r, t, s)
    [] r.o = "scd" -> LET d == ScDiscard(c, s, r.t) IN ScShow(d.s, IF d.ok THEN "d1" ELSE "d0")
    [] r.o = "scu" -> ScShow(ScUntil(c, s, r), "u")
    [] r.o = "sce" ->
         LET s1 == Emit(s, ErrEv(r.tag, IF r.mark THEN s.sc.mark ELSE s.p, s.p)) IN
         ScShow(IF r.fatal THEN [s1 EXCEPT !.sc.st = "f"] ELSE s1, "e")
    [] r.o = "scmark" -> [s EXCEPT !.sc.mark = s.p]
    [] r.o = "scr" ->
         IF s.sc.st # "f" THEN s
         ELSE Push(ScShow([Emit(s, Ev("rs", "", s.p, s.p, "")) EXCEPT !.sc.st = "r"], "r"), r.body \o <<[o |-> "scrend", fin |-> r.fin]>>)
    [] r.o = "scrend" ->
         ScShow([Emit(s, Ev(IF r.fin THEN "rf" ELSE "rc", "", s.p, s.p, "")) EXCEPT !.sc.st = IF r.fin THEN "n" ELSE "f"], "R")
    [] r.o = "scif" -> Push(s, IF s.sc.st = "n" THEN r.yes ELSE r.no)
    [] r.o = "sceof" -> Push(s, IF s.p = Len(c.inp) THEN r.yes ELSE r.no)
    [] r.o = "screm" -> ScShow(s, IF SubMatch(c, r.r, s.p).ok THEN "m1" ELSE "m0")
    [] r.o = "expr" ->
         ExParse(c, [Push(s, <<[o |-> "$expr", ex |-> s.ex]>>) EXCEPT !.ex = NoEx, !.a = <<>>], r, r.min)
    [] r.o = "dbg" -> Emit(s, Ev("dbg", r.s, s.p, s.p, ""))

(* ------------------------------------------------------------------------ *)
(* Continuations: the head of the agenda was a control item f (popped)      *)
Continue(c, s, f) ==
  CASE f.o = "$prd" -> EndPrd(c, s, f)
    [] f.o = "$final" -> [s EXCEPT !.m = "ok"]
    [] f.o = "$root" ->
         [Emit(s, Ev("pf", f.n, s.p, s.p, "")) EXCEPT !.m = "ok", !.val = PrdVal(c, f.n, s.a)]
    [] f.o = "$dep" -> [s EXCEPT !.dep = f.d]
    [] f.o = "$nowt" -> SkipWs(c, [s EXCEPT !.w = TRUE])
    [] f.o = "$capp" ->
         LET s1 == SkipWs(c, s) IN [s1 EXCEPT !.a = f.a \o <<Lexeme(f.b, s.p)>> \o s.a]
    [] f.o = "$try" -> IF "term" \in DOMAIN f THEN Push(s, <<f.term>>) ELSE s
    [] f.o = "$recw" ->
         LET s1 == SkipWs(c, s) IN
         IF s1.m = "fail" THEN Emit(s1, Ev("rc", "", s1.p, s1.p, "")) ELSE Emit(s1, Ev("rf", "", s1.p, s1.p, ""))
    [] f.o = "$while" -> Parse(c, [KeepVars(s, f.nv) EXCEPT !.a = f.a], f.r)
    [] f.o = "$loop" -> Parse(c, [KeepVars(s, f.nv) EXCEPT !.a = f.a], f.r)
    [] f.o = "$nsep" -> Emit(s, ErrEv(f.tag, f.b, s.p))
    [] f.o = "$lst" ->
         LET f1 == Collect(s, f)  s1 == [KeepVars(s, f.nv) EXCEPT !.a = <<>>] IN
         IF f.ph = "item" THEN ListNext(c, s1, f1) ELSE ListItem(c, s1, f1)
    [] f.o = "$lstt" ->
         LET f1 == Collect(s, f)  s1 == KeepVars(s, f.nv) IN
         LT(c, s1, f1, IF f.ph \in {"sep","rsep"} THEN "trail" ELSE "term")
    [] f.o = "$del" ->
         LET f1 == Collect(s, f) IN DelLoop(c, [KeepVars(s, f.nv) EXCEPT !.a = <<>>], [f1 EXCEPT !.cb = s.p])
    [] f.o = "$cvspan" -> VarSet(s, f.id, VarGet(s, f.id) + f.x * (s.p - f.b))
    [] f.o = "$comb" -> CombDone(c, s, f)
    [] f.o = "$pas" ->
         LET v == IF f.r.T = "num" THEN s.a[1] ELSE "as(" \o Join(s.a) \o ")" IN
         [s EXCEPT !.a = IF f.r.front THEN <<v>> \o f.a ELSE Append(f.a, v)]
    [] f.o = "$rep" -> RepNext(s, Collect(s, f))
    [] f.o = "$scp" -> ScShow([KeepVars(s, f.nv) EXCEPT !.a = <<>>], f.txt \o Join(s.a))
    [] f.o = "$scan" -> ScDone(s, f)
    [] f.o = "$expr" -> [s EXCEPT !.ex = f.ex]
    [] f.o = "$exatom" -> [s EXCEPT !.a = ExVal(f.r, s.a)]
    [] f.o = "$exfin" -> Emit(s, Ev("of", "", s.p, s.p, ""))
    [] f.o = "$exloop" -> ExLoop(c, s, f.r, f.min)
    [] f.o = "$exop" -> ExAfterOp(c, s, f)
    [] f.o = "$expre" -> ExDone([s EXCEPT !.a = ExVal(f.r, f.v \o s.a)], f.op)
    [] f.o = "$exin" -> ExAfterRhs(c, s, f)
    [] f.o = "$exlist" -> ExAfterItem(c, s, f)
    [] f.o = "$exlistop" ->
         ExParse(c, Push([s EXCEPT !.a = <<>>], <<[f EXCEPT !.o = "$exlist", !.sink = ExSink(f, s.a)]>>), f.r, f.op.rhs)

(* the machine is failing and unwinds the control item f (popped)           *)
Unwind(c, s, f) ==
  CASE f.o = "$prd" -> [RestoreVars(Emit(s, Ev("pc", f.n, s.p, s.p, "")), f) EXCEPT !.wp = f.wp]
    [] f.o = "$final" -> [s EXCEPT !.m = "bad"]
    [] f.o = "$root" -> [Emit(s, Ev("pc", f.n, s.p, s.p, "")) EXCEPT !.m = "bad"]
    [] f.o = "$dep" -> [s EXCEPT !.dep = f.d]
    [] f.o = "$nowt" -> [s EXCEPT !.w = TRUE]
    [] f.o = "$try" -> Recover(c, [KeepVars(s, f.nv) EXCEPT !.m = "run", !.a = f.a], f.rec)
    [] f.o = "$recw" -> Emit(s, Ev("rc", "", s.p, s.p, ""))
    [] f.o = "$lstt" ->
         LET s1 == [KeepVars(s, f.nv) EXCEPT !.m = "run", !.a = <<>>] IN
         IF f.ph = "sep" /\ s.p = f.sp /\ IsBranch(c, f.r.r) THEN
            LET t == Try(c, f.r.r, s1) IN
            IF t.ok THEN Finish(c, f.r.r, t, Push(s1, <<[f EXCEPT !.ph = "msitem"]>>))
            ELSE LT(c, Cancel(c, f.r.r, t, s1), f, "rec")
         ELSE LT(c, s1, f, "rec")
    [] f.o = "$scp" ->     \* the scanner keeps the failure
         ScShow([KeepVars(s, f.nv) EXCEPT !.m = "run", !.a = <<>>, !.sc.st = "f"], f.bad)
    [] f.o = "$del" ->     \* an escape branch failed after its condition: no value, parsing continues
         DelLoop(c, [KeepVars(s, f.nv) EXCEPT !.m = "run", !.a = <<>>], [f EXCEPT !.cb = s.p])
    [] f.o = "$expr" ->     \* a value was parsed: good enough to carry on
         IF s.a # <<>> THEN [s EXCEPT !.ex = f.ex, !.m = "run"] ELSE [s EXCEPT !.ex = f.ex]
    [] f.o = "$exatom" -> [s EXCEPT !.a = <<>>]
    [] f.o \in {"$exfin","$exloop"} -> Emit(s, Ev("of", "", s.p, s.p, ""))
    [] f.o \in {"$exop","$exin"} -> [s EXCEPT !.a = f.a]
    [] f.o \in {"$exlist","$exlistop"} -> [s EXCEPT !.a = <<SinkVal(f)>>]
    [] OTHER -> s

IsCtl(x) == x.o \in {"$prd","$final","$root","$dep","$nowt","$capp","$try","$recw","$while","$loop",
                     "$nsep","$lst","$lstt","$del","$cvspan",
                     "$comb","$pas","$rep","$scp","$scan","$expr","$exatom","$exfin","$exloop","$exop","$expre","$exin","$exlist","$exlistop"}

Step(c, s) ==
  LET h == Head(s.k)  s1 == [s EXCEPT !.k = Tail(@)] IN
  IF s.m = "run" THEN (IF IsCtl(h) THEN Continue(c, s1, h) ELSE Parse(c, s1, h))
  ELSE (IF IsCtl(h) THEN Unwind(c, s1, h) ELSE s1)

Terminal(s) == s.m \in {"ok", "bad"}

Run(c, s) == IF Terminal(s) THEN s ELSE Run(c, Step(c, s))

RECURSIVE RunN(_,_,_)
RunN(c, s, n) == IF n = 0 \/ Terminal(s) THEN s ELSE RunN(c, Step(c, s), n - 1)

(* the initial state of an action on production c.root *)
Start(c) ==
  LET n == c.root  solo == c.prods[n].rule.o = "scan" /\ c.prods[n].rule.mode = "solo"
      s0 == [p |-> 0, k |-> <<c.prods[n].rule, [o |-> "$root", n |-> n]>>, m |-> "run", a |-> <<>>,
             v |-> <<>>, w |-> TRUE, wp |-> IF c.prods[n].ws.o # "none" THEN n ELSE "",
             dep |-> 0, log |-> <<Ev("ps", n, 0, 0, "")>>, val |-> "", ex |-> NoEx, sc |-> NoScan]
  IN IF solo THEN s0 ELSE SkipWs(c, s0)
=============================================================================
