"""parse trees under every combination of options"""
from gram import *
a, b, c = (lit(ch) for ch in "abc")
CAP = 20000
def grammars():
    gs = []
    def add(name, *prods, alpha, n, topts, **kw): gs.append(G(name, list(prods), alpha=alpha, n=n, topts=topts, **kw))
    every = [vopt(u=bool(k & 1), c=bool(k & 2), s=bool(k & 4), sp=bool(k & 8), **kw) for k in range(16) for kw in (dict(), dict(d=1 + k % 4, w=k % 5, tab=k % 3))]
    I = P("I", lit("i") >> opt(A_space | b | lit("\u00e9")))
    add("every", I, P("M", lit("m") >> prd("I") + opt(prd("I"))), P("Root", opt_list(prd("M") | prd("I") | cap(A_space))), alpha="im \t\nb\u00e9", n=3, topts=every, rnd=300, rlen=9)
    add("deep", P("N", lit("(") >> opt(recb("N")) + lit(")")), P("Root", opt(prd("N"))), alpha="()", n=2, topts=[vopt(d=d, u=d % 2 == 1, c=d % 3 == 0) for d in (0, 1, 2, 3, 7, 14, 15, 29, 30, 31, 32)],
        extra=["(" * k + ")" * k for k in (1, 2, 3, 6, 7, 8, 14, 15, 16, 29, 30, 31, 32, 33, 34, 35, 40, 60)])
    # children after a deep node, nodes without children, last children at every level
    add("comb", P("L", lit("l")), P("N", lit("(") >> opt_list(recb("N") | prd("L") | a) + lit(")")), P("Root", opt_list(prd("N") | prd("L") | b)), alpha="(la)b", n=5, topts=[vopt(d=d, u=True) for d in (1, 2, 3, 4, 5)] + [vopt(d=2), vopt(d=0)], rnd=800, rlen=14)
    add("empty", P("E", opt(a)), P("Root", prd("E") + b + prd("E") + opt_list(c)), alpha="abc", n=4, topts=[vopt(d=d, u=bool(k)) for d in (0, 1, 2) for k in (0, 1)])
    return [g for g in gs if g]
