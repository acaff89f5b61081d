"""expressions: precedence, associativity, groups, nesting"""
from gram import *
MC = (130, 0)
MC_THOROUGH = (3000, 0)
A = cap(A_digit)
def L(k, n, ops, operand="atom"):
    """operators given by their text"""
    return O(k, n, [oper(lit(x), "void") for x in ops.split()], operand)
def grammars():
    gs = []
    def add(name, root, alpha, n, atom=A, pe={}, tail=pos, **kw):
        gs.append(G(name, [PE("E", atom, root, **pe), P("Root", prd("E") + tail)], alpha=alpha, n=n, **kw))
    # every kind alone, and every pair of kinds, nested either way
    K = ["left", "right", "list", "single", "prefix", "postfix"]
    for k in K:
        add("k_" + k, L(k, "o1", "+"), "1+2", 7)
        add("n_" + k, L(k, "o1", "+"), "1+", 9, pe=dict(max=2))
    for k1 in K:
        for k2 in K:
            add("k2_%s_%s" % (k1, k2), L(k1, "o1", "+", L(k2, "o2", "*")), "1+*", 7)
    # three levels
    add("math", L("left", "sum", "+ -", L("left", "product", "* /", L("prefix", "neg", "-", L("right", "power", "^")))), "1+-*^", 5, rnd=4000, rlen=13)
    add("logic", L("single", "cmp", "< <=", L("list", "sum", "+", L("prefix", "neg", "- +", L("postfix", "fact", "! -")))), "1<=+-!", 5, rnd=4000, rlen=12)
    add("pre3", L("prefix", "p1", "-", L("left", "i1", "+", L("prefix", "p2", "+", L("postfix", "q1", "!", L("prefix", "p3", "~"))))), "1-+!~", 6, rnd=3000, rlen=12)
    add("tern", L("right", "asg", "=", L("single", "eq", "==", L("left", "sh", "<< >>", L("single", "lt", "< > <= >="))))  , "1=<>", 7, rnd=3000, rlen=14)
    # operators that are prefixes of one another, on different levels
    add("pfx", L("left", "o1", "+", L("postfix", "o2", "++", L("prefix", "o3", "+ ++"))), "1+", 9)
    add("dup", L("left", "o1", "-", L("prefix", "o2", "-", L("postfix", "o3", "--"))), "1-", 9)
    # a shared operator on two levels
    add("same", L("left", "o1", "+", L("right", "o2", "+")), "1+", 8)
    # groups
    g1 = [L("left", "sum", "+", L("left", "prod", "*")), L("left", "band", "&", L("left", "bor", "|"))]
    add("g_top", g1, "1+*&|", 5, rnd=4000, rlen=13)
    add("g_in", L("single", "cmp", "=", g1), "1+=&|", 5, rnd=4000, rlen=13)
    add("g_pre", L("prefix", "neg", "-", [L("prefix", "a", "+"), L("postfix", "b", "!"), "atom"]), "1-+!", 7)
    add("g_three", [L("left", "a", "+"), L("right", "b", "*"), L("list", "c", "&", L("prefix", "d", "~"))], "1+*&~", 5, rnd=4000, rlen=11)
    add("g_nest", [L("left", "a", "+", [L("left", "b", "*"), L("left", "c", "/")]), L("left", "d", "&")], "1+*/&", 5, rnd=4000, rlen=11)
    # what follows an operator; values of operators
    gs.append(G("ternary", [PE("E", A, O("right", "cond", [oper(lit("?"), "void", rest=rec("E") + lit(":"))], L("left", "sum", "+"))), P("Root", prd("E") + pos)], alpha="1?:+", n=6, rnd=3000, rlen=12))
    PT = "struct pos_tag { const char* p; explicit pos_tag(const char* p) : p(p) {} };\ninline std::string fmt(const pos_tag& t) { return vf::fmt(t.p); }\n"
    def plus(**kw): return oper(lit("+"), val="tag", **kw)
    seven = oper(lit("-"), val="7", cpp='dsl::op<7>(LEXY_LIT("-"))')
    at = oper(lit("@"), "pos_tag", "@")
    for k in K:
        gs.append(G("v_" + k, [PE("E", A, O(k, "o1", [plus(), seven, at, oper(lit("."), "void"), oper(lit("["), "void", rest=cap(A_digit) + lit("]")), oper(lit("("), "pos_tag", "@", rest=opt(lit("x")) + lit(")"))])), P("Root", prd("E") + pos)],
                    alpha="1+-@.[](x)", n=3, rnd=3000, rlen=9, pre=PT, extra=["1+1-1@1.1[3]1(x)1", "1[1]1", "1[x]1", "1(]", "1+1[x]", "1(x)1(1", "+-@.[3](x)1", "[x]1", "[3(x)1"]))
    # recursion through the atom
    gs.append(G("paren", [PE("E", (A | lit("(") >> rec("E") + lit(")")), L("left", "sum", "+", L("prefix", "neg", "-", L("postfix", "f", "!"))), max=4), P("Root", prd("E") + eof)], alpha="1+-!()", n=5, rnd=4000, rlen=14, extra=["(1+1+1)+(1+1+1)", "((1+1)+1)!!-1", "1+1+1+1", "1+1+1+1+1", "(1+1+1+1+1)+1"]))
    gs.append(G("parenrec", [PE("E", (A | lit("(") >> rec("E") + lit(")")), L("left", "sum", "+")), P("Root", prd("E") + eof, maxdep=None)], alpha="1+()", n=5, maxdep=3, extra=["(((1)))", "((((1))))", "(((1+1)+1))", "1+(((2)))"]))
    gs.append(G("exrec", [PE("E", try_(A, find(lit("+"), lit(";"))), L("left", "sum", "+", L("left", "mul", "*"))), P("Root", list_(prd("E"), sep(lit(";"))) + eof)], alpha="1+*;x", n=5, rnd=3000, rlen=10))
    gs.append(G("exlist", [PE("E", A, L("list", "sum", "+", L("single", "eq", "="))), P("Root", lit("[") + list_(prd("E"), sep(lit(","))) + lit("]"))], alpha="[]1+=,", n=5, rnd=3000, rlen=10))
    # whitespace; token productions
    gs.append(G("ws", [PE("E", A, L("left", "sum", "+", O("postfix", "idx", [oper(lit("["), "void", rest=cap(A_digit) + lit("]"))], L("prefix", "neg", "-")))), P("Root", prd("E") + pos + eof, ws=lit(" "))], alpha="1+ -[]", n=5, rnd=3000, rlen=12, extra=[" 1 + - 1 [ 2 ] + 3 "]))
    gs.append(G("wsown", [PE("E", A, L("left", "sum", "+", L("prefix", "neg", "-")), ws=lit(" ")), P("Root", lit("=") + prd("E") + pos + lit(";"))], alpha="=1+ -;", n=5, rnd=2000, rlen=10))
    gs.append(G("tokex", [PE("E", A, L("left", "sum", "+"), tok=True), P("Root", prd("E") + pos + eof, ws=lit(" "))], alpha="1+ ", n=7))
    # keyword operators, case folding, several characters
    gs.append(G("kw", [PE("E", cap(lit("a")), O("left", "or_", [oper(kw("or", A_alpha, A_alpha), "void")], O("prefix", "not_", [oper(kw("not", A_alpha, A_alpha), "void"), oper(lit("no"), "void")]))), P("Root", prd("E") + pos, ws=lit(" "))], alpha=" aornt", n=5, extra=["a or a", "nota", "not a or not a", "no a", "a ora", "noa", "aor a", "not", "a or not", "notnot a"], rnd=1500, rlen=10))
    gs.append(G("cfop", [PE("E", A, O("left", "x", [oper(cf(lit("and")), "void"), oper(cf(lit("a")), "void")])), P("Root", prd("E") + pos)], alpha="1aAnD", n=5, rnd=500, rlen=8, extra=["1and1", "1ANd2", "1a2AND3", "1anD", "1an2"]))
    for enc in ("utf16", "utf32", "ascii", "default", "byte"):
        add("enc_" + enc, L("left", "sum", "+ +=", L("prefix", "neg", "- --", L("postfix", "f", "! !!"))), "1+-!=", 4, enc=enc, rnd=1500, rlen=10, atom=cap(A_digit))
    gs.append(G("uni", [PE("E", A, O("left", "times", [oper(lit_cp("×"), "void"), oper(lit_cp("∧"), "void")], O("postfix", "deg", [oper(lit_cp("°"), "void")]))), P("Root", prd("E") + pos)], alpha="1×∧°", n=5, syms=[[0xC3], [0xE2]]))
    # own errors
    N, C, Gr = T(1), T(2), T(3)
    gs.append(G("tags", [PE("E", A, [L("single", "cmp", "<"), L("left", "sum", "+")], max=3, tags=dict(nest=N, chain=C, group=Gr)), P("Root", prd("E") + pos)], alpha="1<+", n=7))
    # subexpressions
    root = L("left", "sum", "+", L("left", "prod", "*", L("prefix", "neg", "-", L("postfix", "f", "!"))))
    for sub in ("sum", "prod", "neg", "f"):
        gs.append(G("sub_" + sub, [PE("E", A, root), PE("S", A, root, of="E", sub=sub), P("Root", prd("S") + pos)], alpha="1+*-!", n=5, rnd=1000, rlen=9))
    # the default limit
    gs.append(G("deep", [PE("E", A, L("left", "sum", "+", L("prefix", "neg", "-")), setmax=False), P("Root", prd("E") + pos)], extra=["1" + "+1" * k for k in (254, 255, 256, 257, 258)] + ["-" * k + "1" for k in (255, 256, 257)] + ["-" * 128 + "1" + "+1" * 128, "-" * 128 + "1" + "+1" * 129]))
    return gs
