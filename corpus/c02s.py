"""rules around values and grammars: parse_as, effect, subgrammar"""
from gram import *
FN = "static int eff7() { return 7; }\nstatic void eff0() {}\n"
def grammars():
    gs = []
    def add(name, rule, alpha, n, **kw): gs.append(G(name, [P("Root", rule)], alpha=alpha, n=n, **kw))
    a, b = lit("a"), lit("b")
    add("pas1", pos + pas(cap(a) + pos) + pos, "ab", 4)
    add("pas2", opt(pas(cap(a) >> (cap(b) + pos))) + pos, "abc", 4)
    add("pas3", (pas(a >> pos) | pas(b >> (pos + pas(pos + cap(lit("c")))))) + pos, "abc", 4)
    add("paslist", list_(pas(cap(a) >> pos), sep(lit(","))) + pos, "a,b", 5)
    gs.append(G("pasprd", [P("A", cap(a) + pos), P("Root", pos + pas(prd("A") + b + prd("A")) + pos)], alpha="abc", n=5))
    gs.append(G("pasws", [P("Root", pos + pas(cap(a) + b) + pos, ws=lit(" "))], alpha="ab ", n=6))
    gs.append(G("pastry", [P("Root", pos + try_(pas(cap(a) + b), find(lit(";"))) + pos)], alpha="ab;", n=5))
    gs.append(G("paserr", [P("A", try_(a >> b) + pos), P("Root", pas(prd("A")) + pos)], alpha="abc", n=4))
    gs.append(G("pasrec", [P("Root", (pas(lit("(") >> rec("Root") + lit(")")) | cap(a)))], alpha="()a", n=7, maxdep=3))
    gs.append(G("pasvar", [P("Root", flag_new("f") + pas(a >> (flag_set("f") + pos)) + flag_val("f"))], alpha="ab", n=3, pre=flag_decl("f")))
    gs.append(G("eff", [P("Root", pos + effect("eff7", "7") + a + effect("eff0", "") + opt(b >> effect("eff7", "7")) + pos)], alpha="ab", n=4, pre=FN, std="c++20"))
    def sub(name, prods, alpha, n, subs, **kw):
        """the productions named in subs are subgrammars"""
        top = "namespace %s { %s }\n" % (name, " ".join("struct %s;" % x for x in subs)) + "".join("LEXY_DECLARE_SUBGRAMMAR(%s::%s)\n" % (name, x) for x in subs)
        gs.append(G(name, prods, alpha=alpha, n=n, top=top, after="".join("LEXY_DEFINE_SUBGRAMMAR(%s::%s)\n" % (name, x) for x in subs), **kw))
    sub("sub1", [P("S", cap(a) + pos), P("Root", lit("(") + subg("S") + lit(")") + pos)], "(a)b", 5, ["S"])
    sub("sub2", [P("T", cap(a) + pos), P("S", lit("[") + prd("T") + lit("]")), P("Root", lit("(") + subg("S") + try_(lit(")") + subg("T"), find(lit(";"))) + pos)], "([a]);", 4, ["S", "T"], rnd=3000, rlen=9, extra=["([a])a", "([a]);", "([a]a;", "([b])"])
    sub("subws", [P("S", cap(a) + b + pos, ws=lit("_")), P("Root", lit("(") + subg("S") + lit(")") + pos, ws=lit(" "))], "(a)b _", 4, ["S"], rnd=4000, rlen=10, extra=["( _a_b_) ", "(_a _b)", "(a_b)", "( a b )", "(a__b__) ", "(_a_b_ )"])
    sub("subnows", [P("S", cap(a) + b + pos), P("Root", lit("(") + subg("S") + lit(")") + pos, ws=lit(" "))], "(a)b ", 5, ["S"], rnd=2000, rlen=9, extra=["( ab) ", "(ab)", "(a b )", "(ab )"])
    sub("subrec", [P("S", (lit("[") >> (rec("S") + lit("]")) | cap(a)) + pos), P("Root", (lit("(") >> (rec("Root") + lit(")")) | lit("x") >> subg("S")) + pos)], "([])xa", 5, ["S"], maxdep=3, rnd=3000, rlen=12, extra=["((x[[a]]))", "x[[[a]]]", "(x[[a]])", "((x[a]))", "(((xa)))", "x[[[[a]]]]", "((([xa])))"])
    sub("suberr", [P("S", try_(cap(a) + b, find(lit(";"))) + pos), P("Root", lit("(") + subg("S") + opt(lit(";")) + lit(")") + pos)], "(a)b;", 5, ["S"], rnd=1000, rlen=8)
    sub("subvar", [P("S", flag_new("g") + if_(a >> flag_set("g")) + flag_val("g")), P("Root", flag_new("f") + lit("(") + if_(a >> flag_set("f")) + subg("S") + lit(")") + flag_val("f"))], "(a)", 6, ["S"], pre=flag_decl("f", "g"))
    sub("subtok", [P("S", cap(a) + pos, tok=True), P("Root", lit("(") + subg("S") + lit(")") + pos, ws=lit(" "))], "(a) ", 6, ["S"])
    sub("sublist", [P("S", cap(a) + opt(b)), P("Root", list_(lit(":") >> subg("S"), sep(lit(","))) + pos)], ":a,b", 6, ["S"])
    return gs
