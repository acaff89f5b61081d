"""combinations, flags, members"""
from gram import *
def grammars():
    gs = []
    def add(name, rule, alpha, n, **kw): gs.append(G(name, [P("Root", rule)], alpha=alpha, n=n, **kw))
    a, b, c = (lit(x) for x in "abc")
    ab = lit("ab")
    for part in (False, True):
        s = "p" if part else "c"
        if part: add("p1", comb(a >> pos, partial=True) + pos, "ab", 5)
        add(s + "2", comb(a >> pos, b >> pos, partial=part) + pos, "abc", 6)
        add(s + "3", comb(a >> pos, b, c >> pos, partial=part) + pos, "abcx", 6)
        add(s + "4", comb(*[lit(x) >> pos for x in "abcd"], partial=part) + pos, "abcd", 6, rnd=500, rlen=9)
        add(s + "5", comb(*[cap(lit(x)) for x in "abcde"], partial=part) + pos, "abcde", 5, rnd=2500, rlen=9)
        add(s + "many", comb(*[cap(lit(x)) for x in "abcdefghijklmnopqrst"], partial=part) + pos, "abcdefghijklmnopqrst", 1, rnd=1500, rlen=24,
            extra=["abcdefghijklmnopqrst", "tsrqponmlkjihgfedcba", "abcdefghijklmnopqrstt", "abcdefghijklmnopqrss", "bacdefghijklmnopqrst", "abcdefghijkllmnopqrst", "abcdefghijklmnopqrsat"])
        add(s + "dup", comb(a >> pos, b >> pos, partial=part, dup=T(1)) + pos, "abx", 6)
        add(s + "fail", comb(a >> (lit("1") + pos), b >> opt(lit("2")), c >> must(lit("3") >> pos, T(2)), partial=part) + pos, "abc123", 5, rnd=2500, rlen=9)
        add(s + "overlap", comb(a >> pos, ab >> pos, b >> pos, partial=part) + pos, "ab", 8)
        add(s + "overlap2", comb(ab >> pos, a >> pos, b >> pos, partial=part) + pos, "ab", 8)
        add(s + "peek", comb(peek(a) >> (a + pos), peek(lit("bc")) >> (b + c), b >> pos, partial=part) + pos, "abc", 6)
        add(s + "try", comb(a >> try_(lit("1") + pos), b >> try_(lit("2"), find(a, b)), partial=part) + pos, "ab12", 6)
        gs.append(G(s + "prd", [P("A", a >> opt(lit("1"))), P("B", b >> must(lit("2") >> pos, T(3))), P("Root", comb(prd("A"), prd("B"), c >> nullopt, partial=part) + pos)], alpha="abc12", n=5, rnd=2000, rlen=9))
        gs.append(G(s + "ws", [P("Root", comb(a >> pos, b >> pos, c, partial=part) + pos, ws=lit(" "))], alpha="abc ", n=6))
        gs.append(G(s + "nest", [P("In", lit("(") >> (comb(a >> pos, b >> pos, partial=part) + lit(")"))), P("Root", comb(a >> pos, prd("In"), c, partial=part) + pos)], alpha="abc()", n=5, rnd=2500, rlen=9))
        gs.append(G(s + "val", [P("Root", pos + comb(cap(a), cap(b) >> pos, c, partial=part) + cap(opt_tail()) + pos)], alpha="abcx", n=5))
        gs.append(G(s + "list", [P("Item", comb(cap(a), cap(b), partial=part) + lit(";")), P("Root", list_(peek(lset(a, b, lit(";"))) >> prd("Item")) + pos)], alpha="ab;", n=7))
        for enc in ("utf16", "utf32", "ascii"):
            add(s + "e_" + enc, comb(cap(a), cap(b), cap(c), partial=part) + pos, "abcd", 5, enc=enc)
        # aggregates
        F = ["x", "y", "z"]
        for S in (None, "S"):
            gs.append(G(s + "agg" + (S or ""), [P("Root", comb(a >> mem("x", pos, S), b >> mem("y", cap(lit("1")), S), c >> mem("z", opt(cap(lit("2"))), S), partial=part), val="agg", agg="S", fields=F)], pre=agg_decl("S", F), alpha="abc12", n=5, rnd=2500, rlen=9))
            gs.append(G(s + "aggb" + (S or ""), [P("Root", comb(mem("x", cap(a), S), mem("y", b >> pos, S), mem("z", c >> nullopt, S), partial=part), val="agg", agg="S", fields=F)], pre=agg_decl("S", F), alpha="abc", n=7))
    add("cmiss", comb(a >> pos, b >> pos, miss=T(4)) + pos, "abx", 6)
    add("cmissdup", comb(a >> pos, b >> pos, c, dup=T(1), miss=T(4)) + pos, "abcx", 6)
    F = ["x", "y", "z"]
    for S in ("S",):
        gs.append(G("mem" + (S or ""), [P("Root", mem("y", cap(a), S) + mem("x", pos, S) + mem("z", opt(cap(b)), S), val="agg", agg="S", fields=F, via="|")], pre=agg_decl("S", F), alpha="abc", n=4))
        gs.append(G("mem2" + (S or ""), [P("A", cap(a)), P("Root", mem("x", prd("A"), S) + if_(b >> mem("y", pos, S)) + mem("z", flag(c), S), val="agg", agg="S", fields=F, via="|")], pre=agg_decl("S", F), alpha="abc", n=5))
        gs.append(G("mem3" + (S or ""), [P("Root", mem("x", cap(a), S) + mem("x", cap(b), S), val="agg", agg="S", fields=F, via="|")], pre=agg_decl("S", F), alpha="ab", n=4))
        gs.append(G("membr" + (S or ""), [P("Root", (mem("x", cap(a), S) | mem("y", cap(b), S) | mem("z", c >> pos, S)), val="agg", agg="S", fields=F, via="|")], pre=agg_decl("S", F), alpha="abc", n=3))
    def lm(n, r): # with the macro, as a named rule
        m = mem(n, r); d = "static constexpr auto m_%s = LEXY_MEM(%s) = %s;\n" % (n, n, r.cpp); m.cpp = "m_" + n
        return m, d
    (x, dx), (y, dy), (z, dz) = lm("x", pos), lm("y", cap(a)), lm("z", b >> pos)
    gs.append(G("memm", [P("Root", y + x + if_(z), val="agg", agg="S", fields=F, via="|")], pre=agg_decl("S", F) + dx + dy + dz, alpha="abc", n=4))
    # flags
    E = [("r", 1), ("w", 2), ("x", 4)]
    E2 = [("a", 1), ("ab", 2), ("abc", 8), ("b", 16)]
    gs.append(G("flags", [P("Root", flags("t", E) + pos)], pre=flag_table("t", E), alpha="rwxy", n=6))
    gs.append(G("flagsdef", [P("Root", flags("t", E, default=2) + pos)], pre=flag_table("t", E), alpha="rwxy", n=6))
    gs.append(G("flagsdef3", [P("Root", flags("t", E, default=9, dup=T(5)) + pos)], pre=flag_table("t", E), alpha="rwxy", n=6))
    gs.append(G("flagslong", [P("Root", flags("t", E2) + pos)], pre=flag_table("t", E2), alpha="abc", n=7))
    E3 = [("a", 1), ("b", 2), ("x", 3), ("c", 4), ("y", 6), ("z", 12)]     # flags that share bits
    for d in (None, 2, 3, 8): gs.append(G("flagsbits%s" % (d or ""), [P("Root", flags("t", E3, default=d) + pos)], pre=flag_table("t", E3), alpha="abcxyz", n=4))
    gs.append(G("flagstok", [P("Root", flags("t", E2, t=token(A_lower + A_lower)) + pos)], pre=flag_table("t", E2), alpha="abc", n=6))
    gs.append(G("flagsid", [P("Root", flags("t", E2, t=idp(A_lower, A_lower)) + pos, ws=lit(" "))], pre=flag_table("t", E2), alpha="abc ", n=6, rnd=1500, rlen=10, extra=["a ab abc b", "abc ab a b b", "a  a ", " a b"]))
    gs.append(G("flagsws", [P("Root", flags("t", E) + pos + eof, ws=lit(" "))], pre=flag_table("t", E), alpha="rwx ", n=6))
    gs.append(G("flagsprd", [P("A", lit("-") >> flags("t", E)), P("Root", list_(prd("A"), sep(lit(","))) + pos)], pre=flag_table("t", E), alpha="rw-,", n=6))
    add("flag1", flag(a) + flag(b >> pos) + pos, "abc", 5)
    add("flag2", flag(a, 7, 3) + flag(b >> lit("1"), 5) + pos, "ab1c", 5)
    add("flag3", flag(peek(a)) + flag(lit("ab") >> pos) + pos, "abc", 5)
    gs.append(G("flag4", [P("A", a >> opt(b)), P("Root", flag(prd("A")) + flag(try_(c >> lit("1"))) + pos, ws=lit(" "))], alpha="abc1 ", n=5))
    return gs
def opt_tail(): return token(while_(lit("x")))
