"""grammars of the other corpora, parsed from an interactive shell: the same as on the text itself, reading no line that is not needed"""
import importlib
from gram import *
HDR = "obs_shell.hpp"
MODULE = "ShellRun"
CAP = 10000
PER_TU = 1
# with newlines added to their alphabets
PICK = {
 "c01": "choice3 while2 list3t rec1 until1 termseq eol1 any1",
 "c02": "escprod",
 "c03": "find2 tlist3",
 "c05": "ws1 ws8",
 "c07": "resall",
 "c10": "digs_10",
 "c11": "esc1 dlim_utf8",
 "c12": "math",
 "c13": "rd1 scopetry",
 "c14": "look3 until_utf8 eol_utf8",
 "c25": "c4",
}
def grammars():
    gs = []
    for m, names in PICK.items():
        have = {g.name: g for g in importlib.import_module(m).grammars() if g}
        for n in names.split():
            g = have[n]
            g.topts = []
            g.name = m + "_" + n
            g.view = "shell"
            if "\n" not in g.alpha: g.alpha += "\n"
            gs.append(g)
    a, b, c, lp, rp, semi = (lit(x) for x in "abc();")
    def add(name, *prods, alpha, n, **kw): gs.append(G(name, list(prods), alpha=alpha, n=n, view="shell", **kw))
    WS = lit_cls(" ") / lit_cls("\n")
    nl = lit("\n")
    # an interpreter's line; a statement over several lines; blocks that continue until they are closed
    add("line", P("Root", opt(cap(a)) + peek(eol)), alpha="ab\n", n=5)
    add("stmt", P("Root", list_(cap(a)) + semi, ws=WS), alpha="a; \n", n=6)
    add("block", P("Root", lp + opt_list(cap(a) | b >> pos) + rp, ws=WS), alpha="ab()\n", n=5)
    add("paren", P("Par", lp >> opt_list(recb("Par") | a) + rp), P("Root", list_(prd("Par") | a | nl)), alpha="a()\n", n=6)
    add("nows", P("Root", lp + opt_list(cap(a) | b >> pos) + rp), alpha="ab()\n", n=5)
    add("eofs", P("Root", while_(a >> eol) + eof), alpha="ab\n\r", n=5)
    add("none", P("Root", opt(a) + pos), alpha="ab\n", n=5)
    add("errs", P("Root", try_(a + b + semi, find(semi)) + opt(semi) + pos, ws=WS), alpha="ab; \n", n=5)
    add("lits", P("Root", (lset(lit("a"), lit("a\nb"), lit("\n"), lit("\n\n")) | b) + pos), alpha="ab\n", n=5)
    return gs
