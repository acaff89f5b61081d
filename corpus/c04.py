"""parse trees: nesting, tiling, transparency, cancellation, at every size around the blocks of the node buffer"""
from gram import *
import itertools, random
a, b, c, d, x, y, z = (lit(ch) for ch in "abcdxyz")
comma, semi = lit(","), lit(";")
op_, cl = lit("("), lit(")")
CAP = 12000
CAP_THOROUGH = 100000

def words(alpha, n): return ["".join(w) for k in range(n + 1) for w in itertools.product(alpha, repeat=k)]
def at(ks, fill, ws): return [fill * k + w for k in ks for w in ws]
# a block holds 170 tokens or productions
EDGE = [165, 166, 167, 168, 169, 170, 171, 172]
EDGE2 = [337, 338, 339, 340, 341]

def grammars():
    gs = []
    def add(name, *prods, alpha, n, **kw): gs.append(G(name, list(prods), alpha=alpha, n=n, view="tree", **kw))
    # flat
    add("flat", P("Root", while_(a) + eof), alpha="ab", n=4, extra=["a" * k for k in list(range(160, 182)) + list(range(335, 345)) + [509, 510, 511, 512, 850, 1024, 2000]])
    # small productions
    it = P("I", b >> opt(c))
    add("items", it, P("Root", while_(a) + opt_list(prd("I")) + eof), alpha="abc", n=5, extra=at(EDGE + EDGE2, "a", words("bc", 4)))
    add("empty", P("E", if_(c)), P("F", b >> prd("E")), P("Root", while_(a) + opt_list(prd("F"))), alpha="abc", n=5, extra=at(EDGE + EDGE2, "a", words("bc", 4)))
    # cancelled productions, with few and many tokens in them
    for w in (0, 1):
        add("cancel%d" % w, P("K", b >> if_(c)), P("I", op_ >> while_(b >> if_(c)) + cl), P("L", c + cl), P("J", op_ >> opt_list(prd("K")) + prd("L")),
            P("Root", while_(a) + opt_list(R("try", "dsl::try_(dsl::p<%s>, dsl::find(LEXY_LIT(\",\")))" % ("I" if w else "J"), r=prd("I" if w else "J"), rec=find(comma)) | comma)),
            alpha="a(b,c)", n=4, extra=at(EDGE + EDGE2, "a", words("(b,)", 4)) + at([150, 160, 165, 169, 170], "a", ["(" + "b" * k + t for k in (1, 8, 18, 20, 21, 25, 180, 200) for t in (")", ",", ",(b)", "c),(bc", ",(bb,(b),")]))
    # transparent productions
    add("transp", P("T", b >> if_(c), transp=True), P("U", x >> prd("T") + opt_list(prd("T")), transp=True), P("V", y >> prd("U")), P("W", prd("V") | prd("U"), transp=True), P("Root", while_(a) + opt_list(prd("W")) + eof), alpha="abcxy", n=5, extra=at(EDGE, "a", words("bxy", 4)))
    # nesting
    add("nest", P("N", op_ >> while_(a) + opt(recb("N")) + cl), P("Root", opt_list(prd("N")) + eof), alpha="(a)", n=6, maxdep=2000,
        extra=["(" * k + "a" * j + ")" * l for k in (1, 10, 84, 85, 86, 100, 169, 170, 171, 340, 500) for j in (0, 1) for l in (k, k - 1)] + at(EDGE, "(a)", words("(a)", 3)) + ["(" + "a" * k + w + ")" for k in EDGE for w in words("(a)", 4)] + ["(" * k + "a)" * k + "(" * j + "a" + ")" * j for k in (5, 40, 85) for j in (4, 5, 41, 90)])
    # whitespace and token productions
    add("ws", P("Tk", b >> if_(c), tok=True), P("V", x >> prd("Tk") + if_(c)), P("Root", while_(a) + opt_list(prd("V") | prd("Tk")) + eof, ws=A_blank), alpha="abcx ", n=5,
        extra=at([82, 83, 84, 85, 86, 87, 168, 169, 170], "a ", words("bcx ", 3)) + at(EDGE, "a", words("bcx ", 3)))
    # recovery: error tokens next to each other, remaining input
    add("reco", P("S", b >> c + semi), P("Root", while_(a) + opt_list(R("try", "dsl::try_(dsl::p<S>, dsl::find(LEXY_LIT(\";\")))", r=prd("S"), rec=find(semi)) | semi | x >> err(T(1)))), alpha="abc;x", n=5,
        extra=at(EDGE, "a", words("bc;", 4)))
    # cancelled inside of cancelled
    add("cancel3", P("M", b >> c), P("L", op_ >> opt_list(prd("M")) + cl), P("S", x >> opt_list(R("try", "dsl::try_(dsl::p<L>, dsl::find(LEXY_LIT(\",\")))", r=prd("L"), rec=find(comma)) | comma) + semi),
        P("Root", while_(a) + opt_list(R("try", "dsl::try_(dsl::p<S>, dsl::find(LEXY_LIT(\"x\")))", r=prd("S"), rec=find(x)))), alpha="ax(bc),;", n=4, rnd=1500, rlen=11,
        extra=at([160, 164, 166, 167, 168, 169, 170], "a", ["x(bc);", "x(bc,(bcbc);x;", "x(b", "x((bc),(bcbcbcb;x(bc);", "x(bcbc" + "bc" * 60 + ",(bc)x;", "x(bcbc" + "bc" * 60 + ");x;"]))
    return [g for g in gs if g]
