------------------------------ MODULE Callbacks ------------------------------
(* The values callbacks and sinks return. A value is a sequence of integers    *)
(* beginning with its kind; a callback or sink is an expression tree.          *)
(*   0 integer   1 list   2 nullopt   3 aggregate   4 void   5 string          *)
(*   6 plus      7 minus  8 member    9 list with allocator  10 code point     *)
(*   12 string with allocator                                                  *)
EXTENDS Text, Calls, SequencesExt, FiniteSetsExt

Num(v)  == <<0, v>>
List(s) == <<1>> \o s
Null    == <<2>>
Void    == <<4>>
Kind(v) == v[1]
Body(v) == Tail(v)

Enc(e, cp) ==
  CASE e = "utf8" ->
         IF cp < 128 THEN <<cp>>
         ELSE IF cp < 2048 THEN <<192 + cp \div 64, 128 + (cp % 64)>>
         ELSE IF cp < 65536 THEN <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
         ELSE <<240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
    [] e = "utf16" -> IF cp < 65536 THEN <<cp>> ELSE <<55296 + (cp - 65536) \div 1024, 56320 + ((cp - 65536) % 1024)>>
    [] OTHER -> <<cp>>

RECURSIVE Cat(_)
Cat(vs) == IF vs = <<>> THEN <<>> ELSE Body(vs[1]) \o Cat(Tail(vs))

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == Min(S) IN <<m>> \o Sorted(S \ {m})
RECURSIVE Insert(_,_)
Insert(s, x) == IF s = <<>> THEN <<x>> ELSE IF x < s[1] THEN <<x>> \o s ELSE <<s[1]>> \o Insert(Tail(s), x)
RECURSIVE Sort(_)
Sort(s) == IF s = <<>> THEN <<>> ELSE Insert(Sort(Tail(s)), s[1])

RECURSIVE FoldUnits(_,_,_,_)
FoldUnits(e, tab, s, p) ==
  IF p >= Len(s) THEN <<>>
  ELSE LET d == Decode(e, s, p)
           key == ToString(d.cp) IN
       IF d.ok THEN Enc(e, IF key \in DOMAIN tab THEN tab[key] ELSE d.cp) \o FoldUnits(e, tab, s, d.end)
       ELSE LET q == IF d.end = p THEN p + 1 ELSE d.end IN SubSeq(s, p + 1, q) \o FoldUnits(e, tab, s, q)
CaseFold(x, s) ==
  CASE x.fold = "" -> s
    [] x.fold = "ascii" -> [i \in 1..Len(s) |-> AsciiFold(s[i])]
    [] OTHER -> FoldUnits(x.e, x.tab, s, 0)

(* the pure functions the programs use: chosen so that order, number and values all show *)
RECURSIVE Dec(_,_)
Dec(acc, s) == IF s = <<>> THEN acc ELSE Dec(((acc * 10) + s[1]) % 99991, Tail(s))
RECURSIVE Alt(_,_)
Alt(acc, s) == IF s = <<>> THEN acc ELSE Alt((s[1] - (3 * acc)) % 99991, Tail(s))
Fn(f, args) ==
  CASE f = "dec" -> Num(Dec(7, Cat(args)))
    [] f = "alt" -> Num(Alt(1, Cat(args)))
    [] f = "len" -> Num(Len(Body(args[1])))
    [] f = "hash" -> Num(Alt(5, Cat(args)))
    [] f = "mul" -> Num((args[1][2] * 100) + args[2][2])
    [] f = "pair" -> <<3>> \o Cat(args)
    [] f = "kinds" -> List([i \in 1..Len(args) |-> Kind(args[i])])
    [] f = "i16" -> Num(IF args[1][2] > 32767 THEN args[1][2] - 65536 ELSE args[1][2])
    [] f = "neg" -> Num(0 - args[1][2])

CharsOf(x, v) == IF Kind(v) = 10 THEN Enc(x.e, v[2]) ELSE Body(v)
RECURSIVE Chars(_,_)
Chars(x, vs) == IF vs = <<>> THEN <<>> ELSE CharsOf(x, vs[1]) \o Chars(x, Tail(vs))

RECURSIVE Members(_,_)      \* member, value, member, value, ... onto the fields m
Members(m, vs) == IF vs = <<>> THEN m ELSE Members([m EXCEPT ![vs[1][2]] = vs[2][2]], Tail(Tail(vs)))

RECURSIVE Call(_,_,_), Run(_,_,_), RunFrom(_,_,_,_), BoundArgs(_,_,_)
(* callback x called with the values args; st is the state it was given *)
Call(x, args, st) ==
  CASE x.k = "list" -> IF Len(args) = 1 /\ Kind(args[1]) = 1 THEN args[1]
                       ELSE IF Len(args) = 1 /\ args[1] = Null THEN List(<<>>) ELSE List(Cat(args))
    [] x.k = "alist" -> IF Len(args) = 1 /\ Kind(args[1]) = 9 THEN args[1]
                        ELSE IF Len(args) = 1 /\ args[1] = Null THEN <<9, st + x.off>> ELSE <<9, st + x.off>> \o Cat(args)
    [] x.k = "galist" -> <<9, args[1][2]>> \o Cat(Tail(args))           \* the allocator is given as first argument
    [] x.k = "set" -> IF Len(args) = 1 /\ Kind(args[1]) = 1 THEN List(Sorted(Range(Body(args[1]))))
                      ELSE IF Len(args) = 1 /\ args[1] = Null THEN List(<<>>) ELSE List(Sorted(Range(Cat(args))))
    [] x.k = "mset" -> IF Len(args) = 1 /\ args[1] = Null THEN List(<<>>) ELSE List(Sort(Cat(args)))
    [] x.k = "aset" -> IF Len(args) = 1 /\ args[1] = Null THEN <<9, st + x.off>> ELSE <<9, st + x.off>> \o Sorted(Range(Cat(args)))
    [] x.k = "gaset" -> <<9, args[1][2]>> \o Sorted(Range(Cat(Tail(args))))
    [] x.k = "concat" -> IF Len(args) = 1 /\ args[1] = Null THEN List(<<>>) ELSE List(Cat(args))
    [] x.k = "fn" -> Fn(x.f, args)
    [] x.k = "sfn" -> Fn(x.f, <<Num(st)>> \o args)                      \* callback_with_state
    [] x.k = "agg" -> <<3>> \o Cat(args) \o [i \in 1..(3 - Len(Cat(args))) |-> 0]
    [] x.k = "fwd" -> IF args = <<>> \/ args[1] = Null THEN Void ELSE args[1]
    [] x.k = "const" -> Num(x.v)
    [] x.k = "noop" -> Void
    [] x.k = "int" -> IF Kind(args[1]) = 7 THEN Num(0 - args[2][2]) ELSE Num(args[Len(args)][2])
    [] x.k = "aggr" -> IF Len(args) = 1 /\ args[1] = Null THEN <<3, 0, 0, 0>>
                       ELSE IF args # <<>> /\ Kind(args[1]) = 3 THEN <<3>> \o Members(Body(args[1]), Tail(args))
                       ELSE <<3>> \o Members(<<0, 0, 0>>, args)
    [] x.k = "string" -> IF args[1] = Null THEN <<5>> ELSE <<5>> \o CaseFold(x, Chars(x, args))
    [] x.k = "gstring" -> <<12, args[1][2]>> \o CaseFold(x, Chars(x, Tail(args)))
    [] x.k = "bind" -> Call(x.cb, BoundArgs(x.b, args, st), st)
    [] x.k = "comp" -> LET r == Call(x.a, args, st) IN Call(x.c, IF r = Void THEN <<>> ELSE <<r>>, st)
    [] x.k = "over" -> LET sig == [i \in 1..Len(args) |-> Kind(args[i])]
                           n == CHOOSE j \in 1..Len(x.s) : x.s[j] = sig IN Call(x.c[n], args, st)
    [] x.k = "sink" -> Run(x.s, [i \in 1..Len(args) |-> <<args[i]>>], st)   \* callback(sink)
    [] x.k = "sc" -> Call(x.c, args, st)                                \* the callback of sink >> callback

(* what the bound arguments b expand to *)
BoundArgs(b, args, st) ==
  IF b = <<>> THEN <<>>
  ELSE LET h == b[1]
           r == BoundArgs(Tail(b), args, st)
           missing == h.k = "nth" /\ (h.n > Len(args) \/ args[h.n] = Null)
           v == CASE h.k = "const" -> <<Num(h.v)>>
                  [] h.k = "all" -> args
                  [] h.k = "state" -> <<IF h.map = "" THEN Num(st) ELSE Fn(h.map, <<Num(st)>>)>>
                  [] h.k = "nth" -> IF missing /\ h.or # -1 THEN <<Num(h.or)>>
                                    ELSE <<IF h.map = "" THEN args[h.n] ELSE Fn(h.map, <<args[h.n]>>)>>
       IN v \o r

(* a sink: where it starts, what each call adds, what it gives in the end *)
Begin(x, st) ==
  CASE x.k = "list" -> List(<<>>) [] x.k \in {"alist", "aset"} -> <<9, st + x.off>>
    [] x.k \in {"galist", "gaset"} -> <<9, x.al>>
    [] x.k \in {"set", "mset", "concat", "collect"} -> List(<<>>)
    [] x.k = "gcollect" -> <<9, x.al>>
    [] x.k \in {"vcollect", "count"} -> Num(0)
    [] x.k \in {"fold", "foldip"} -> Num(x.init)
    [] x.k = "bfold" -> Num(BoundArgs(x.b, <<>>, st)[1][2] - (3 * BoundArgs(x.b, <<>>, st)[2][2]))   \* the harness's two-argument sink
    [] x.k = "string" -> <<5>> [] x.k = "gstring" -> <<12, x.al>>
    [] x.k = "aggr" -> <<3, 0, 0, 0>>
    [] x.k \in {"noop", "fwd"} -> Void
Item(x, acc, args, st) ==
  CASE x.k \in {"list", "alist", "galist"} -> IF Len(args) = 2 THEN acc \o <<(args[1][2] * 100) + args[2][2]>> ELSE acc \o Cat(args)
    [] x.k \in {"set"} -> List(Sorted(Range(Body(acc)) \cup {IF Len(args) = 2 THEN (args[1][2] * 100) + args[2][2] ELSE args[1][2]}))
    [] x.k \in {"aset", "gaset"} -> <<9, acc[2]>> \o Sorted(Range(Tail(Body(acc))) \cup {args[1][2]})
    [] x.k = "mset" -> List(Sort(Body(acc) \o Cat(args)))
    [] x.k = "concat" -> acc \o Cat(args)
    [] x.k \in {"collect", "gcollect"} -> acc \o Body(Call(x.cb, args, st))
    [] x.k \in {"vcollect", "count"} -> Num(acc[2] + 1)
    [] x.k \in {"fold", "foldip", "bfold"} -> Fn(x.f, <<acc>> \o args)
    [] x.k \in {"string", "gstring"} -> acc \o Chars(x, args)
    [] x.k = "aggr" -> <<3>> \o Members(Body(acc), args)
    [] OTHER -> acc
Finish(x, acc) ==
  CASE x.k = "string" -> <<5>> \o CaseFold(x, Body(acc))
    [] x.k = "gstring" -> <<12, acc[2]>> \o CaseFold(x, Tail(Body(acc)))
    [] OTHER -> acc
RunFrom(x, acc, items, st) == IF items = <<>> THEN Finish(x, acc) ELSE RunFrom(x, Item(x, acc, items[1], st), Tail(items), st)
Run(x, items, st) ==
  CASE x.k = "sc" -> Run(x.s, items, st)
    [] OTHER -> RunFrom(x, Begin(x, st), items, st)

(* how the program uses it *)
RECURSIVE Undo(_)
Undo(vs) == IF vs = <<>> THEN <<>> ELSE <<Len(vs[1])>> \o vs[1] \o Undo(Tail(vs))
Expectation(ob) ==
  CASE ob.m = "call" -> Call(ob.x, ob.i, ob.st)
    [] ob.m = "lv" -> Call(ob.x, ob.i, ob.st) \o Undo(ob.i)        \* called with lvalues, which keep their values
    [] ob.m = "sink" -> Run(ob.x, ob.i, ob.st)
    [] ob.m = "both" ->                                            \* parsed by a rule: [list] if any, then the callback
         LET items == ob.i IN
         IF ob.x.k = "sc" THEN Call(ob.x, IF items = <<>> THEN <<Null>> ELSE <<Run(ob.x, items, ob.st)>>, ob.st)
         ELSE IF items = <<>> /\ ob.opt = 1 THEN Call(ob.x, <<Null>>, ob.st) ELSE Run(ob.x, items, ob.st)
=============================================================================
