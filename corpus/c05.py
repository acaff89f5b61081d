"""automatic whitespace"""
from gram import *
a, b, c, d, x, y, z = (lit(ch) for ch in "abcdxyz")
comma, semi, lp, rp = lit(","), lit(";"), lit("("), lit(")")
SP = A_space
def grammars():
    gs = []
    def add(name, *prods, alpha, n, **kw): gs.append(G(name, list(prods), alpha=alpha, n=n, **kw))
    add("ws1", P("I", a >> cap(b) + pos), P("Root", prd("I") + opt(c >> pos) + eof, ws=SP), alpha="abc ", n=7)
    add("ws2", # token production: no whitespace inside, whitespace afterwards
        P("Tk", a >> b + opt(c), tok=True), P("I", x + prd("Tk") + pos),
        P("Root", prd("I") + opt(prd("Tk")) + eof, ws=SP), alpha="abcx ", n=6)
    add("ws3", # nested whitespace definition, restored afterwards
        P("In", a + b + pos, ws=lit("_")), P("Mid", x >> prd("In") + y),
        P("Root", prd("Mid") + z + eof, ws=lit(".")), alpha="abxyz._", n=3, rnd=4000, rlen=12,
        extra=["x.a_b.y.z", "x_a_b_y_z", ".x.a_b_y.z.", "..x..a__b__y..z..", "xa_b_.y.z", "x.ab.y.z"])
    add("ws4", # comments as whitespace: non-token, may fail
        P("Root", a + opt(b >> pos) + c + eof, ws=(SP | lit("/") >> until(lit("/")))), alpha="abc /", n=6)
    add("ws5", # no_whitespace
        P("I", nowt(a + b) + pos + c), P("Root", prd("I") + opt(nowt(x >> y) >> pos) + eof, ws=SP), alpha="abcxy ", n=3, rnd=3000, rlen=10,
        extra=["ab c", "a b c", "ab  cxy ", "abc x y", "ab cxy", "a b"])
    add("ws6", # failing no_whitespace inside recovery: skipping is re-enabled
        P("Root", try_(nowt(a + b), find(semi)) + semi + cap(c) + pos + eof, ws=SP), alpha="abc; ", n=6)
    add("ws7", # nested no_whitespace keeps skipping disabled
        P("Root", nowt(a + nowt(b) + c) + pos + d + eof, ws=SP), alpha="abcd ", n=6)
    add("ws8", # explicit whitespace rule and lists
        P("Root", wsr(lit(".")) + list_(a >> pos, sep(comma)) + wsr(lit(".")) + b + eof, ws=SP), alpha="ab,. ", n=5)
    add("ws9", # recovery and whitespace
        P("I", a >> b), P("Root", b_opt_list(lp, rp, prd("I"), sep(comma)) + pos + c, ws=SP), alpha="abc,() ", n=3, rnd=4000, rlen=12,
        extra=["( ab , ab ) c", "( a , ab )c", "(ab ab) c", "( ) c ", " (ab, )c"])
    add("ws10", # captures, positions, integers, identifiers
        P("Root", cap(lit("ab")) + integer("int", 2**31 - 1, digits(10), 10) + ident(A_lower, A_alnum) + pos + eof, ws=SP),
        alpha="ab1 x", n=4, rnd=2000, rlen=10, extra=["ab 12 x1 ", "ab12x", "ab 1  xx 1"])
    add("ws11", # capture of a production
        P("Tk", a + opt(b), tok=True), P("N", a >> opt(b), tok=True),
        P("Root", capp("Tk") + c + opt(capp("N")) + pos + eof, ws=SP), alpha="abc ", n=6)
    add("ws12", # branch token productions, choice, alternatives, backtracking over whitespace
        P("T1", lit("ab") >> opt(c), tok=True), P("T2", a >> pos, tok=True),
        P("Root", (prd("T1") | prd("T2") | peek(c) >> c) + while_(d) + eof, ws=SP), alpha="abcd ", n=6)
    add("ws13", # whitespace rule whose recovery fails; try around
        P("Root", try_(a + b, find(semi)) + semi + c + eof, ws=(SP | lit("#") >> lit("!"))), alpha="abc;#! ", n=4, rnd=2000, rlen=9)
    add("ws14", # production overriding whitespace recursively, then token production that defines its own
        P("Str", lit("'") >> while_(A_alpha) + lit("'"), tok=True, ws=lit("-")),
        P("Root", prd("Str") + opt(comma >> prd("Str")) + eof, ws=SP), alpha="'a- ,", n=6)
    add("ws15", # delimited disables whitespace inside and skips after
        P("Root", delim(lit("'"), lit("'"), A_char - lit_cls("?") if False else A_char, cpphead="dsl::delimited(LEXY_LIT(\"'\"))") + pos + a + eof, ws=SP), alpha="'a ", n=7)
    add("ws16", # whitespace in a branch condition's continuation; option; inline
        P("A", a >> b), P("Root", opt(inline("A")) + opt(prd("A")) + if_(c >> d) + eof, ws=SP / lit_cls("_")), alpha="abcd _", n=5)
    add("ws17", # recursion
        P("Par", lp >> rec("Root") + rp | a), P("Root", prd("Par") + pos, ws=SP), alpha="()a ", n=6)
    add("ws18", # newline sensitive
        P("L", a + opt(b) + eol, ws=A_blank), P("Root", prd("L") + opt(peek(a) >> prd("L")) + eof), alpha="ab \n", n=6)
    # long runs: whitespace is skipped a word at a time
    def runs(*chs):
        out = []
        for ch in chs:
            for k in (1, 6, 7, 8, 9, 15, 16, 17, 24, 25):
                out += ["a" + ch * k + "b", ch * k + "ab", "ab" + ch * k, "a" + ch * k + "\n" + "b", "a\n" + ch * k + "b", "a" + ch * k + "x" + "b", "a" + ch * k + chs[0] * 8 + chs[-1] + "b"]
        return out
    for enc in ("utf8", "utf16", "utf32"):
        for nm, w in (("nl", A_newline), ("sp", A_space), ("blank", A_blank), ("other", A_other_space), ("lit", lit(" ")), ("two", lit("  ")), ("comm", A_blank | lit("#") >> until(newline)),
                      ("cls", lit_cls("_") / lit_cls("\t")), ("graph", A_punct / lit_cls(" ")), ("anysp", -A_alpha)):
            if enc != "utf8" and nm not in ("nl", "sp", "anysp"): continue
            add("wsrun_%s_%s" % (nm, enc), P("Root", a + cap(b) + pos + eof, ws=w), alpha="ab", n=1, enc=enc, extra=runs(" ", "\t", "\n", "\r", "\v", "_", "\0", "#"))
    return gs
