"""error reports of grammars of all kinds: every error, under several options"""
import importlib
from gram import *
HDR = "obs_report.hpp"
MODULE = "ReportRun"
CAP = 9000
PER_TU = 2
OPTS = [vopt(), vopt(u=True, c=True, s=True, tab=2), vopt(c=True, sp=True, w=3, tab=1), vopt(u=True, sp=True, s=True), vopt(s=True, w=1), vopt(u=True, c=True)]
# with newlines added to their alphabets
PICK = {
 "c01": "choice3 while2 list3t rec1 termseq any1",
 "c02": "escprod rec2 rec3 rec4 nest",
 "c03": "find2 tlist3",
 "c05": "ws1 ws8",
 "c07": "resall",
 "c10": "digs_10",
 "c11": "esc1 dlim_utf8",
 "c12": "math",
 "c13": "rd1 scopetry",
 "c14": "look3 until_utf8 eol_utf8",
 "c25": "c4",
}
def grammars():
    gs = []
    def opts(): return [OPTS[len(gs) % 3], OPTS[3 + len(gs) % 3]]
    for m, names in PICK.items():
        have = {g.name: g for g in importlib.import_module(m).grammars() if g}
        for n in names.split():
            g = have[n]
            g.topts = opts()
            g.name = m + "_" + n
            g.view = "report"
            if "\n" not in g.alpha: g.alpha += "\n"
            gs.append(g)
    a, b, c, lp, rp, semi = (lit(x) for x in "abc();")
    def add(name, *prods, alpha, n, topts=None, **kw): gs.append(G(name, list(prods), alpha=alpha, n=n, view="report", topts=topts or opts(), **kw))
    WS = lit_cls(" ") / lit_cls("\n")
    nl = lit("\n")
    # an error on the line of its production, on a later line, at the end, on a newline
    add("lines", P("In", a >> b + c), P("Root", opt_list(prd("In") | nl | lit("\r\n")) + eof), alpha="abc\n\r", n=6)
    add("later", P("In", lp >> opt_list(a | nl | lit("\t")) + rp), P("Root", opt_list(prd("In") | nl) + eof), alpha="(a)\n\t", n=5)
    add("transp", P("T", a >> b, transp=True), P("U", lp >> opt_list(prd("T") | nl) + rp), P("Root", opt_list(prd("U") | nl) + eof), alpha="(ab)\n", n=5)
    # literals and keywords, matched up to somewhere, over lines
    add("kw", P("Root", opt_list(nl | lit("-") >> kw("abc", A_alpha, A_alpha)) + eof), alpha="abc-\n", n=3, extra=["-abc", "-abca", "-ab\n", "-abc\n-ab", "-\n", "-xyz", "-abcabc\n", "\n\n-aaaaaaaa"], rnd=200)
    add("litnl", P("Root", opt(lit("x")) + lit("ab\ncd") + lit("e\r\n")), alpha="abcdx\n", n=3, extra=["ab\ncde\r\n", "ab\ncx", "xab\nc", "ab\ncde\r", "ab\ncde\n", "ab\r\ncd", "xab", "ab\ncdex"], rnd=150)
    # wide characters, in literals and in the text
    for enc in ("utf8", "utf16", "utf32"):
        add("wide_" + enc, P("Root", opt_list(lit_cp("é") | lit_cp("\u20ac") | lit_cp("\U0001F600") | lit("\t") | nl) + lit_cp("é!\U0001F600?") + eof), alpha="é\u20ac\U0001F600\u00ea!\n\t?", n=3, enc=enc, extra=["é\u20acé!\U0001F600?", "é!\U0001F600", "\u20ac\né!\U0001F601?", "\U0001F600\té\U0001F600"], rnd=200, rlen=9)
    add("bytes", P("Root", opt_list(bytes_(1, "set", 1, 2, 10)) + bytes_(3, "set", 3, 4)), alpha="", syms=[[1], [2], [3], [10], [13]], n=4, enc="byte", extra=[[1] * k + [3] * l for k in (13, 14, 15, 16, 17, 31, 32, 33) for l in (0, 1, 2, 3)], rnd=100, rlen=40)
    add("ascii", P("Root", opt_list(A_alpha | nl) + lit("1") + A_digit + eof), alpha="a1\n", n=5, enc="ascii", syms=[[0x80]])
    # errors of the user, ranges over several lines, empty ranges
    add("ranges", P("Root", opt_list(nl | a >> opt(b >> err(T(1), opt_list(nl | c))) | c >> err(T(2)))), alpha="abc\n", n=6)
    add("recov", P("Stmt", a >> try_(b + semi, find(semi))), P("Root", opt_list(prd("Stmt") | nl | semi) + eof), alpha="ab;\n", n=6)
    add("none", P("Root", opt_list(a | nl)), alpha="ab\n", n=3)
    return [g for g in gs if g]
