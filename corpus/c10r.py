"""repetition with a parsed count"""
from gram import *
def grammars():
    gs = []

    one = integer("int", 2**31 - 1, ndigits2(), 10, deduce=True)
    a = lit("a")
    for mode in ("", "list", "cap"):
        item = cap(a) if mode == "list" else a
        m = mode or "d"
        for sn, sp in (("", NONE), ("s", sep(lit(","))), ("t", tsep(lit(",")))):
            sp2 = sp
            if mode == "list" and sn: sp2 = (sep if sn == "s" else tsep)(cap(lit(",")))
            gs.append(G("r_%s%s" % (m, sn), [P("Root", pos + repeat(one, item, mode, sp2, branch=True) + pos)], alpha="0123a" + ("," if sn else "b"), n=4, rnd=2500, rlen=9, extra=["3a,a,a", "3a,a,a,", "3aaa", "2aaa", "1a", "1a,", "0", "0,", "0a", "12" + "a," * 12, "12" + "a" * 12, "10" + "a" * 10, "2a,,a", "3a,a"]))
        gs.append(G("rw_" + m, [P("Root", pos + repeat(one, item, mode, branch=True) + pos + lit("!"), ws=lit(" "))], alpha="012a !", n=5, rnd=1500, rlen=9, extra=["2 a a !", "0 !", " 1 a!"]))
        gs.append(G("rb_" + m, [P("Root", opt(repeat(one, item, mode, branch=True)) + pos)], alpha="012ab", n=4))
        gs.append(G("rp_" + m, [P("C", one, val="int", itype="int"), P("Root", (repeat(prd("C"), item, mode, branch=True) | lit("-") >> pos) + pos)], alpha="012a-", n=5))
        gs.append(G("rs_" + m, [P("C", lit("[") + one + lit("]"), val="int", itype="int"), P("Root", pos + repeat(prd("C"), item, mode) + pos)], alpha="012a[]", n=5, rnd=2500, rlen=8))
        gs.append(G("rt_" + m, [P("Root", try_(repeat(one, item, mode, branch=True), find(lit(";"))) + pos)], alpha="012a;", n=5))
    gs.append(G("rnest", [P("In", repeat(one, cap(a), "list", branch=True)), P("Root", repeat(one, prd("In"), "list", branch=True) + pos)], alpha="012a", n=6, rnd=1500, rlen=10))
    gs.append(G("ropt", [P("Root", repeat(one, opt(cap(a)), "list", branch=True) + pos)], alpha="02a", n=3, extra=["300aaa", "299", "12", "20aaaaa", "4aaa", "4aaaa", "4aaaaa"]))
    for enc in ("utf16", "utf32", "ascii"):
        gs.append(G("re_" + enc, [P("Root", pos + repeat(one, cap(a), "list", sep(lit(",")), branch=True) + pos)], alpha="013a,", n=4, enc=enc))
    return gs
def ndigits2(): return digits(10)
