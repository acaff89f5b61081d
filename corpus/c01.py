"""control flow: sequence, branch, choice, option, loops, lists, return, productions"""
from gram import *
a, b, c, d, x, y, z = (lit(ch) for ch in "abcdxyz")
comma, semi, dot = lit(","), lit(";"), lit(".")

def grammars():
    gs = []
    def add(name, *prods, alpha, n, **kw): gs.append(G(name, list(prods), alpha=alpha, n=n, **kw))

    add("seq1", P("Root", a + pos + cap(b) + lit("cd") + eof), alpha="abcd", n=4)
    add("choice1",
        P("A", a >> opt(b >> cap(c))),
        P("Root", (prd("A") | x >> pos + while_(y) | else_ >> z) + eof), alpha="abcxyz", n=4)
    add("choice2",   # a choice as the branch of another one, productions as branches
        P("A", a >> b),
        P("B", (a >> c | b >> cap(c) | prd("A"))),
        P("C", lit("ab") >> d | prd("B")),
        P("Root", opt(prd("C")) + (prd("B") | c | d >> prd("A"))), alpha="abcd", n=4)
    add("choice3",   # nested choices: every alternative of the inner one is tried first
        P("E", peek(lit("ab")) >> lit("abc") | peek(lit("a")) >> cap(a)),
        P("F", prd("E") | peek_not(lit("c")) >> b),
        P("Root", (prd("F") >> c | lit("cc") >> pos | c >> prd("F")) + opt(prd("F"))), alpha="abc", n=6)
    add("opt1",
        P("A", a), P("Nested", opt(prd("A")) + opt(lit("bc") >> cap(c)), val=""),
        P("Root", prd("Nested") + if_(b >> cap(lit("x"))) + opt(nullopt if False else (x >> opt(y >> z))) + eof), alpha="abcxyz", n=4)
    add("while1",
        P("Item", a >> cap(b), val="void"),
        P("Root", while_(prd("Item") | x >> y) + while_one(c) + do_while(d, comma) + eof), alpha="abxycd,", n=4, rnd=600, rlen=10)
    add("while2",   # loop bodies do not produce values, nested loops
        P("Root", while_(a >> while_(b >> while_(c)) + if_(d)) + pos + eof), alpha="abcd", n=5)
    add("loop1",
        P("Root", loop(a >> b | c >> break_ | lit("d") >> loop(x >> y | else_ >> break_) | else_ >> lit("!") + break_) + pos + eof),
        alpha="abcdxy!", n=4, rnd=600, rlen=10)
    add("loop2",    # break out of the innermost loop only, from a nested branch
        P("Root", loop(a + (b >> break_ | c | else_ >> while_(x >> y) + break_)) + cap(z)), alpha="abcxyz", n=4, rnd=300)
    add("list1",
        P("I", a >> opt(b)),
        P("L", list_(prd("I")), val=""),
        P("Root", prd("L") + opt_list(c) + eof), alpha="abc", n=6)
    for k, s in (("s", sep(comma)), ("t", tsep(comma))):
        add("list2" + k,
            P("I", a >> cap(opt(b) if False else b)),
            P("L", list_(prd("I") | c, s)),
            P("M", opt_list(d >> pos, s)),
            P("Root", prd("L") + semi + prd("M") + eof), alpha="abcd,;", n=4, rnd=900, rlen=9,
            extra=["ab,c,ab;d,d,d", "c,;d,", "ab,c;", "c;d,d,", "c,c,c,;d,d", "c,a;d", "ab,c,,c;d"])
        add("list3" + k,   # item without branch condition; multi token separator
            P("I", a + opt(b)),
            P("L", (list_(prd("I"), s) if k == "s" else list_(a >> b, s))),
            P("Root", lit("[") + prd("L") + lit("]")), alpha="ab,[]", n=5, rnd=400, rlen=9)
    add("list4", # nested lists
        P("In", list_(a >> pos, sep(comma))),
        P("Root", list_(peek(a) >> prd("In"), sep(semi, T(1))) + eof), alpha="a,;", n=7)
    add("list5", # separator with more than one token that itself produces values
        P("Root", list_(cap(a), sep(cap(comma) >> opt(dot >> pos))) + eof), alpha="a,.", n=7)
    add("times1",
        P("I", a >> opt(b)),
        P("Root", times(2, prd("I")) + times(2, cap(c), sep(comma)) + semi + times(2, d, tsep(comma)) + eof), alpha="abcd,;", n=4,
        rnd=500, rlen=9, extra=["aac,c;d,d", "ababc,c;d,d,", "aac,c,;d,d", "aac,c;d,d,,"])
    add("times2",
        P("Root", times(3, a >> pos) + times(2, b, isep(comma)) + opt(comma >> x) + opt(c)), alpha="ab,cx", n=5, rnd=500, rlen=8,
        extra=["aaab,b,", "aaab,b,x", "aaab,b"])
    add("ret1",
        P("A", a + opt(b >> ret) + cap(c)),
        P("B", if_(x >> (y >> ret | else_ >> z)) + pos),
        P("Root", prd("A") + prd("B") + eof), alpha="abcxyz", n=5)
    add("prd1",
        P("T0", cap(a)), P("T", prd("T0") + if_(b), val="fwd"), P("V", c >> pos, val="void"),
        P("Tr", a >> prd("V"), transp=True),
        P("W", x + prd("T") + opt(prd("V"))),
        P("Root", opt(prd("Tr")) + (prd("V") | peek(x) >> prd("W") | else_ >> prd("W")) + eof), alpha="abcx", n=6)
    add("inline1",
        P("A", a >> cap(b)), P("B", x + pos),
        P("Root", opt(inline("A")) + inline("B") + eof), alpha="abx", n=5)
    add("rec1",
        P("Inner", lit("(") >> opt(recb("Root")) + lit(")") | a),
        P("Root", prd("Inner") >> opt(recb("Root"))), alpha="()a", n=7)
    add("rec2",
        P("Par", lit("(") >> rec("Root") + lit(")")),
        P("Root", prd("Par") | list_(a >> pos, sep(comma)) | else_ >> b), alpha="()a,b", n=5, rnd=400, rlen=12)
    add("eol1", P("Root", opt(a) + eol + opt(b >> eol) + (eof | cap(c) >> eol | newline >> pos)), alpha="abc\n\r", n=5)
    add("until1", P("Root", until(lit("ab")) + opt(c >> until_eof(lit("b"))) + opt(d >> until(newline)) ), alpha="abcd\n", n=5)
    add("any1", P("A", opt(a >> any_) ), P("Root", prd("A") + pos + eof), alpha="ab", n=4)
    add("termseq", P("I", a >> cap(b)), P("Root", tseq(semi, prd("I")) + tseq(comma, opt(prd("I")))+b_plain(lit("("), lit(")"), opt(prd("I")))), alpha="ab;,()", n=3, rnd=500, rlen=11,
        extra=["ab;ab,(ab)", "ab;,()"])
    return gs
