"""scanners: dsl::scan in productions, and the scan action"""
import random
from gram import *
cp = Cls("dsl::code_point", S((0, 0x10FFFF)), "code-point", "any")
a, b, c, x = (lit(y) for y in "abcx")
one, two = lit("1"), lit("2")
CAP = 42000

def prods():
    return [P("A", cap(a) >> opt(one)), P("B", b >> must(two >> pos, T(2))), P("V", lit("(") >> (one + lit(")")), val="void"),
            P("L", list_(cap(lset(a, b)), sep(lit(",")))), P("M", a >> one, val="void")]

def rules(rng):
    """rules without values / rules with values / branches without / with"""
    void = [a, b, c, one, lit("ab"), a + one, (a >> one) | (b >> two), if_(a >> one), while_(lset(a, b)), eof, peek(b, T(3)), must(a >> one, T(4)), try_(one + a), try_(two, find(a, b)), prd("V"), token(a + b), A_digit]
    vals = [cap(a), cap(a) + pos, opt(cap(one)), prd("A"), prd("B"), prd("L"), pos + a, cap(token(a + a)) + prd("A"), (cap(a) >> pos) | (b >> prd("A")), try_(cap(a) + one) + pos]
    bvoid = [a, b, lit("ab"), a >> one, b >> (one | two), peek(a) >> (a + one), (a >> one) | (b >> two), prd("V"), prd("M"), peek_not(b) >> one, token(a + b), lset(a, lit("ab"))]
    bvals = [cap(a), cap(b) >> one, prd("A"), prd("B"), prd("L"), (cap(a) >> one) | (cap(b) >> prd("A")), peek(a) >> prd("A")]
    return void, vals, bvoid, bvals

def program(rng, depth=0, rec=False):
    void, vals, bvoid, bvals = rules(rng)
    def tok(): return rng.choice([a, b, one, token(a + b), cp, cp, A_digit])
    def sub(d=1): return program(rng, depth + d, rec) if depth < 2 else []
    out = []
    for _ in range(rng.randint(1, 4 if depth == 0 else 2)):
        k = rng.randrange(18)
        if k <= 1: out.append(s_parse(rng.choice(void), form=rng.randrange(2)))
        elif k <= 3: out.append(s_parse(rng.choice(vals), "vf::As", form=rng.randrange(2)))
        elif k == 4: out.append(s_prod(rng.choice(["A", "B", "L"]), form=rng.randrange(2)))
        elif k == 5: out.append(s_cap(tok()))
        elif k == 6: out.append(s_int("int", 2**31 - 1, digits(), 10, deduce=rng.randrange(2) == 0))
        elif k <= 8: out.append(s_branch(rng.choice(bvoid), sub(), sub()))
        elif k == 9: out.append(s_branch(rng.choice(bvals), sub(), sub(), T="vf::As"))
        elif k == 10: out.append(s_branch(prd(rng.choice(["A", "B", "L"])), sub(), sub(), T="prod"))
        elif k == 11: out.append(s_while(rng.choice(bvoid[:5] + bvoid[6:7]), sub(2)))
        elif k == 12: out.append(s_peek(rng.choice([a, b, a + one, lit("ab")]), sub(), sub()))
        elif k == 13: out.append(s_discard(tok()))
        elif k == 14:
            out.append(s_error(T(rng.randrange(5, 9)), fatal=rng.randrange(2) == 0, mark=rng.randrange(2) == 0, msg=rng.randrange(2) == 0))
        elif k == 15: out.append(rng.choice([s_mark, s_if(sub(), sub()), s_eof(sub(), sub()), s_rem("A"), s_rem("L")]))
        elif not rec: out.append(s_recover(program(rng, 1, True) + rng.choice([[], [s_until(lset(one, two), cp)], [s_discard(cp)]]), fin=rng.randrange(3) > 0))
    return out

def grammars():
    gs = []
    def add(name, prog, alpha="ab12", n=5, mode="state", ps=None, tail=None, **kw):
        q = (ps if ps is not None else prods()) + [PS("Sc", prog, mode=mode), P("Root", prd("Sc") + (tail or pos))]
        gs.append(G(name, q, alpha=alpha, n=n, **kw))
    def solo(name, prog, alpha="ab12", n=5, ws=None, ps=None, control="", **kw): gs.append(G(name, (ps if ps is not None else prods()), solo=PSolo(prog, ws, control), alpha=alpha, n=n, **kw))
    recov = s_recover([s_until(lset(a, b), cp)])
    P1 = {
     "seq": [s_parse(a), s_parse(cap(lset(a, b)) + opt(cap(one)), "vf::As"), s_parse(two, form=1)],
     "fail": [s_parse(a), s_parse(b), s_discard(a), s_branch(a, [s_parse(b)], [s_parse(one)]), s_peek(a), s_cap(two)],
     "branch": [s_branch(lit("ab"), [s_parse(one)], [s_branch(a >> one, [s_prod("A")], [s_parse(two)])]), s_eof([s_parse(eof)], [s_discard(cp)])],
     "branchfail": [s_branch(a >> one, [s_parse(b), s_branch(b)], [s_parse(two)]), s_if([s_prod("B")], [s_error(T(5))])],
     "while": [s_while(lset(a, b), [s_branch(one)]), s_while(one >> a, [s_peek(one)]), s_parse(two)],
     "recover": [s_parse(a + one), recov, s_parse(b)],
     "recfail": [s_parse(a + one), s_recover([s_discard(cp), s_parse(two), s_parse(b)]), s_parse(opt(cap(b)), "vf::As")],
     "cancel": [s_parse(a + one), s_recover([s_discard(cp), s_branch(two)], fin=False), s_branch(b), s_parse(a)],
     "recbranch": [s_prod("B"), s_recover([s_while(one), s_branch(prd("A"), [s_parse(b)], [s_discard(cp)], T="prod")]), s_prod("A", form=1)],
     "discard": [s_discard(a), s_discard(token(b + one)), s_parse(a), s_discard(cp)],
     "error": [s_mark, s_parse(a), s_error(T(5)), s_error(T(6), mark=True), s_error(T(7), mark=True, msg=True), s_parse(b)],
     "fatal": [s_mark, s_branch(a), s_error(T(5), fatal=True, mark=True), s_parse(b), recov, s_peek(one, [s_error(T(6), fatal=True, msg=True)]), s_recover([s_discard(cp)])],
     "prod": [s_prod("A"), s_branch(prd("B"), [s_prod("L")], [s_rem("A")], T="prod"), s_capp("V"), s_rem("L")],
     "int": [s_int("int", 2**31 - 1, digits(), 10), s_branch(a), s_int("unsigned char", 255, digits(16), 16), s_parse(b)],
     "typed": [s_parse(digits() and integer("int", 2**31 - 1, digits(), 10), "std::size_t"), s_branch(prd("L"), [s_parse(one)], T="vf::As"), s_parse(prd("L") + opt(one), "vf::As", form=1)],
     "twice": [s_parse(one), recov, s_parse(one), recov, s_parse(one)],
     "count": [s_while(a, [s_branch(b, [], [s_error(T(5))])]), s_parse(eof)],
    }
    for n, p in P1.items():
        alpha = {"prod": "ab1(,)", "int": "a1fb0", "typed": "ab1,"}.get(n, "ab12")
        more = ["255a255", "256aff", "2147483647a1", "2147483648a0ffb", "99999999999affffb"] if n == "int" else ["a1b2(1)", "a(1)a,b", "ab2a,b(1)"] if n == "prod" else []
        nn = 5 if len(alpha) < 6 else 4
        add("p_" + n, p, alpha, nn, extra=more, rnd=300, rlen=9)
        add("s_" + n, p, alpha, 4, mode="always", extra=more, rnd=300, rlen=9) if n != "x" else None
        solo("l_" + n, p, alpha, nn, extra=more, rnd=300, rlen=9)
    # failing after an error although the scanner is fine
    add("never", [s_branch(a, [s_error(T(5))], [s_error(T(6), fatal=True), recov])], mode="never")
    # where the scanner stands
    gs.append(G("args", prods() + [PS("Sc", [s_parse(b), recov, s_branch(one)], rule=lambda s: cap(a) + pos + s), P("Root", prd("Sc") + pos)], alpha="ab12", n=5))
    gs.append(G("argsafter", prods() + [PS("Sc", [s_parse(b), recov, s_branch(one)], rule=lambda s: opt(cap(a)) + s + pos + opt(two), val=""), P("Root", prd("Sc") + pos)], alpha="ab12", n=5))
    gs.append(G("asbranch", prods() + [PS("Sc", [s_parse(b), recov, s_branch(one)], rule=lambda s: cap(a) >> s), P("Root", opt(prd("Sc")) + list_(prd("Sc") | two) + pos)], alpha="ab12", n=5))
    gs.append(G("inlist", prods() + [PS("Sc", [s_parse(lset(a, b)), s_while(one)]), P("Root", list_(prd("Sc"), sep(lit(","))) + pos)], alpha="ab1,", n=5))
    gs.append(G("tried", prods() + [PS("Sc", [s_prod("A"), s_parse(b)]), P("Root", try_(prd("Sc"), find(two)) + two + pos)], alpha="ab12", n=5))
    gs.append(G("term", prods() + [PS("Sc", [s_prod("A"), s_parse(b)]), P("Root", tlist(lit(";"), prd("Sc"), sep(lit(","))) + pos)], alpha="ab1,;", n=5, rnd=800, rlen=9))
    gs.append(G("root", prods() + [PS("Root", [s_prod("A"), s_recover([s_until(lset(b, two), cp)]), s_branch(b), s_parse(eof)])], alpha="ab12", n=5))
    gs.append(G("voided", prods() + [PS("Sc", [s_parse(a), s_branch(one), recov], void=True), P("Root", pos + prd("Sc") + pos)], alpha="ab12", n=5))
    gs.append(G("nested", prods() + [PS("In", [s_parse(lit("(")), s_branch(one), s_parse(lit(")"))], mode="state"), PS("Sc", [s_prod("In"), s_recover([s_branch(prd("In"), T="prod")]) if 0 else s_recover([s_until(lit("("), cp), s_prod("In")]), s_prod("In")]), P("Root", prd("Sc") + pos)], alpha="()1a", n=5, rnd=500, rlen=9))
    gs.append(G("rec", [PS("Root", [s_branch(lit("("), [s_parse(rec("Root"), "vf::As"), s_parse(lit(")"))], [s_parse(a)])])], maxdep=3, alpha="(a)", n=7, extra=["((((a))))", "(((a)))"]))
    gs.append(G("recd", [PS("Root", [s_branch(lit("("), [s_prod("Root"), s_parse(lit(")")), s_recover([s_until(lit(")"), cp), s_branch(lit(")"))])], [s_parse(a)])], mode="always")], alpha="(a)", n=7, extra=["((((a))))", "(((a)))"]))
    # whitespace
    for n, ws in (("t", lit(" ")), ("r", (lit(" ") | (lit("#") >> until(lit(";")))))):
        gs.append(G("ws" + n, prods() + [PS("Root", [s_parse(a), s_branch(b >> one), s_discard(a), s_prod("A"), recov, s_peek(b), s_cap(lset(b, two))], ws=ws, mode="always")], alpha="ab1 #;" if n == "r" else "ab1 ", n=5 if n == "t" else 4, rnd=800, rlen=10))
        solo("lws" + n, [s_parse(a), s_branch(b >> one), s_discard(a), s_prod("A"), recov, s_peek(b), s_cap(lset(b, two))], ws=ws, alpha="ab1 #;" if n == "r" else "ab1 ", n=5 if n == "t" else 4, rnd=800, rlen=10)
    gs.append(G("wstok", prods() + [PS("Sc", [s_parse(a), s_branch(b), s_parse(one)], tok=True), P("Root", prd("Sc") + prd("Sc") + pos, ws=lit(" "))], alpha="ab1 ", n=5, rnd=400, rlen=10))
    solo("ldep", [s_branch(lit("("), [s_prod("R")], [s_parse(a)])], ps=[P("R", (lit("(") >> (rec("R") + lit(")"))) | cap(a))], control="static constexpr auto max_recursion_depth = 2; ", alpha="(a)", n=6, maxdep=2)
    # encodings
    for enc in ("utf16", "utf32", "ascii", "default"):
        ch = [] if enc in ("default", "ascii") else None
        any1 = A_char
        p = [s_parse(a + one), s_recover([s_until(lset(a, b), any1)]), s_branch(prd("A"), [s_discard(any1)], [s_cap(any1)], T="prod"), s_parse(eof)]
        add("e_" + enc, p, enc=enc); solo("le_" + enc, p, enc=enc)
    # malformed code points are discarded unit by unit or not at all
    U = [[0xE2], [0x82], [0xAC], [97], [0xC3]]
    p = [s_parse(a), s_recover([s_discard(cp), s_discard(cp), s_discard(cp)]), s_branch(cp), s_cap(cp), s_parse(any_)]
    add("cp", p, "", 4, mode="always"); gs[-1].syms = U
    solo("lcp", p, "", 4); gs[-1].syms = U
    # programs at random
    rng = random.Random(23)
    for i in range(24):
        p = program(rng)
        add("r%d" % i, p, "ab12,()", 3, mode=rng.choice(["state", "always"]), rnd=500, rlen=8)
        solo("lr%d" % i, p, "ab12,()", 3, rnd=500, rlen=8)
    return gs
