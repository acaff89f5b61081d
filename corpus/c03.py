"""error recovery: try_, find, recover, terminators, brackets, terminated lists, error, must"""
from gram import *
a, b, c, d, x, y, z = (lit(ch) for ch in "abcdxyz")
comma, semi, dot, lp, rp = lit(","), lit(";"), lit("."), lit("("), lit(")")

def grammars():
    gs = []
    def add(name, *prods, alpha, n, **kw): gs.append(G(name, list(prods), alpha=alpha, n=n, **kw))
    add("try1", P("I", a >> b + c),
        P("Root", try_(prd("I")) + cap(d) + opt(try_(x >> y)) + eof), alpha="abcdxy", n=5)
    add("try2", P("I", a + cap(b)),
        P("Root", try_(prd("I"), find(semi)) + semi + try_(x + y, semi if False else find(dot, lim=[comma])) + dot + eof),
        alpha="abxy;.,", n=4, rnd=1200, rlen=9, extra=["ab;xy.", "ax;x.", "a;xyy.", "ab;xa,."])
    add("try3", # recovery that matches a rule; nested try
        P("I", a + try_(b + c, until(d)) + cap(x)),
        P("Root", try_(prd("I"), until_eof(semi)) + pos), alpha="abcdx;", n=4, rnd=600, rlen=8, extra=["abcx", "abdx", "aaadx;", "abd;"])
    add("try4", # as a branch
        P("I", a >> try_(b >> c + d, find(semi)) + semi),
        P("Root", (try_(x >> y, find(dot)) + pos | prd("I") | else_ >> z) if False else (x >> try_(y, find(dot)) + opt(dot) + pos | prd("I") | else_ >> z)),
        alpha="abcdxyz;.", n=4)
    add("reco1",
        P("I", a >> b + c, val="void"),
        P("Root", try_(prd("I"), reco(x >> y, semi, lim=[dot])) + pos + eof), alpha="abcxy;.", n=4, rnd=600, rlen=8)
    add("reco2", # recovery branch is a production with lookahead
        P("J", peek(lit("xy")) >> lit("xyz") | d, val="void"),
        P("Root", try_(a + b + c, reco(prd("J"))) + pos + opt(semi)), alpha="abcdxyz;", n=4, rnd=600, rlen=8)
    add("find2", P("Root", try_(a + b, find(lit("xyx"), lit("xz"), lim=[lit("xyy"), lit(".")])) + pos + opt(x >> opt(y)) + opt(z)), alpha="abxyz.", n=5)
    add("term1", P("I", a >> cap(b)),
        P("Root", ttry(semi, prd("I") + c) + topt(dot, prd("I")) + pos), alpha="abc;.", n=4, rnd=1500, rlen=9,
        extra=["abc;ab.", "abc;.", "ab;ab.", "abc;a.", "ax;xx."])
    add("term2", P("I", a >> b), # with limit
        P("Root", ttry(semi, prd("I") + x, lim=[dot]) + pos + opt(dot)), alpha="abx;.", n=5)
    for k, s in (("n", None), ("s", sep(comma, T(3))), ("t", tsep(comma))):
        add("tlist" + k, P("I", a >> cap(b)),
            P("L", tlist(semi, prd("I"), s), val=""), P("M", toptlist(rp, prd("I"), s, lim=[semi])),
            P("Root", try_(prd("L"), find(lp)) + opt(lp >> prd("M")) + pos), alpha="ab,;()", n=4, rnd=2500, rlen=12,
            extra=["ab,ab,ab;(ab,ab)", "abab;(abab)", "ab,a,ab;", "ab,,ab;", "a,ab;", "ab ab;", "ab;(a,ab)", "ab;()", "ab,;(ab,)", "aab,ab;", "abab,ab;(abab)",
                   "ab,xab;", "ab;(a;ab)"])
    add("tlist2", # items without condition, multi token separator that can fail
        P("I", a + cap(b)),
        P("Root", tlist(semi, prd("I"), sep(comma >> dot)) + pos), alpha="ab,.;", n=5, rnd=2000, rlen=12,
        extra=["ab,.ab,.ab;", "ab,ab,.ab;", "ab,.b;", "b,.ab;"])
    add("tlist3", # choice items
        P("I", a >> b), P("J", c >> opt(d)),
        P("Root", b_opt_list(lp, rp, prd("I") | prd("J") | lit("x"), sep(comma)) + eof), alpha="abcdx,()", n=4, rnd=2500, rlen=12,
        extra=["(ab,cd,x)", "()", "(x,)", "(,x)", "(ab,?,x)", "(a,b,c)", "(x x)", "(ax,b)"])
    add("brk1", P("I", a >> b),
        P("Root", b_try(lp, rp, prd("I") + c) + opt(b_opt(lit("["), lit("]"), prd("I"))) + opt(b_list(lit("{"), lit("}"), prd("I"), None)) + pos),
        alpha="abc()[]{}", n=3, rnd=3000, rlen=12, extra=["(abc)[ab]{abab}", "(ab)[]{ab", "(ax)[a]{a}", "(abc)[b]{b}"])
    add("err1", P("I", a >> b | c >> err(T(1)) | else_ >> err(T(2), x + y if False else lit("xy"))),
        P("Root", try_(prd("I"), find(semi)) + opt(semi >> prd("I"))), alpha="abcxy;", n=5)
    add("must1", P("I", a >> b | c >> d),
        P("Root", must(prd("I"), T(4)) + try_(must(x >> y, T(5), lit("zz")), find(semi)) + pos), alpha="abcdxyz;", n=4, rnd=800, rlen=7)
    add("must2", P("Root", opt(must(a >> b, T(1))) + must(c | d >> pos, T(2), until(semi))), alpha="abcd;", n=5)
    add("nest1", # errors inside productions that are recovered by an outer terminator
        P("E", lit("x") >> y), P("S", (a >> prd("E") + b | c)),
        P("Blk", b_opt_list(lit("{"), lit("}"), prd("S"), sep(semi))),
        P("Root", prd("Blk") + opt(prd("Blk")) + eof), alpha="abcxy{};", n=3, rnd=3500, rlen=14,
        extra=["{axyb;c}", "{ax;c}{c}", "{axyb c}", "{c;axb;c}", "{}{}", "{c;;c}", "{axb}{c}"])
    add("eofnb", P("I", a >> eof + b), P("Root", try_(prd("I")) + eof + opt(b)), alpha="ab", n=5)
    add("errtok1", P("Root", errtok(lit("ab"), T(6)) + try_(errtok(A_digit, T(7)) + errtok(token(x + y), T(8)), find(semi)) + pos), alpha="ab1xy;", n=5)
    add("rprog1", # the resynchronisation condition does not consume
        P("St", a + semi, val="void"),
        P("Root", tlist(rp, peek_not(rp) >> prd("St")) + pos), alpha="a;)x", n=5)
    add("rprog2",
        P("St", a >> opt(b), val="void"),
        P("Root", tlist(rp, prd("St"), sep(peek(lit(",") ) >> comma if False else peek_not(x) >> comma)) + pos), alpha="ab,;)x", n=5)
    return gs
