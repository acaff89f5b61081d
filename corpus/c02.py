"""all actions on the same input: values, errors, trees and traces (under every kind of option), token kinds, lines"""
from gram import *
a, b, c, d, x, y, z = (lit(ch) for ch in "abcdxyz")
comma, semi, nl = lit(","), lit(";"), lit("\n")
OPTS = [vopt(u=True, d=2), vopt(c=True, s=True, w=3, d=3), vopt(u=True, c=True, s=True, sp=True, tab=2, w=1), vopt(d=0), vopt(d=1, tab=3, sp=True), vopt(u=True, c=True, d=1)]
WS = A_space
CAP = 20000

def grammars():
    gs = []
    def add(name, *prods, alpha, n, topts=None, **kw): gs.append(G(name, list(prods), alpha=alpha, n=n, topts=OPTS[len(gs) % 3 * 2:][:2] if topts is None else topts, **kw))
    # productions on several lines, events of the parent positioned before the child
    add("lines1", P("E", lit_c("\\") >> b, extra=""), P("S", delim(lit("("), lit(")"), A_alpha / A_space, [])), P("Root", opt_list(prd("S") | prd("E")) + eof), alpha="(a)\n\\b", n=5)
    for k, w in (("", None), ("w", WS)):
        add("escprod" + k, P("Esc", peek(lit("\n")) >> nl + lit("b")),
            P("S", delim(lit("("), lit(")"), A_alpha / A_space, [Esc(lit_c("\\"), [esc_rule(prd("Esc"))])])),
            P("Root", prd("S") + opt(c) + pos, ws=w), alpha="(a)\n\\b", n=6 if not k else 5)
    add("nest", P("I", lit("i") >> opt(nl >> a | b)), P("M", lit("m") >> prd("I") + nl + opt(prd("I"))), P("Root", opt_list(prd("M") | prd("I") | nl) + eof), alpha="im\nab", n=6)
    # backtracking over lines: branches that consume before they fail
    add("bt2", P("A", peek(a + nl) >> a + nl + dbg("in A")), P("B", token(a + b + nl) >> dbg("in B") + c), P("Root", dbg("start") + opt_list(prd("A") | prd("B") | cap(token(a + b)) | b) + eof), alpha="ab\nc", n=6)
    add("bt3", P("K", lit("ab\ncd") | lit("ab\nx") | lit("ab")), P("Root", opt_list(prd("K") | nl | peek(c + d) >> c) + eof), alpha="ab\ncd", n=6)
    # recovery over lines
    add("rec2", P("Stmt", a >> try_(b + semi, find(nl))), P("Root", opt_list(prd("Stmt") | nl | semi) + eof), alpha="ab;\n", n=7)
    add("rec3", P("L", b_list(lit("("), lit(")"), a >> try_(b, find(comma)), sep(comma), lim=[semi])), P("Root", opt_list(prd("L") | semi | nl), ws=A_blank / A_newline), alpha="(ab),;\n ", n=5, rnd=4000, rlen=12)
    add("rec4", P("V", (lit("v") >> try_(x + y)) | (lit("(") >> ttry(lit(")"), rec("V")))), P("Root", prd("V") + eof, ws=A_space), alpha="vxy()\n", n=6)
    add("tok1", P("T", a >> opt(b) + c, tok=True), P("U", lit("[") >> prd("T") + lit("]")), P("Root", opt_list(prd("U") | nl >> opt(prd("T"))) , ws=A_space), alpha="[abc]\n ", n=5, rnd=2000, rlen=11)
    add("transp2", P("T", a >> b + dbg("t"), transp=True), P("U", prd("T") | c >> prd("T"), transp=True), P("W", prd("U")), P("Root", opt_list(prd("W") | nl) + eof), alpha="abc\n", n=6)
    # texts shown under every option
    for enc in ("utf8", "utf16", "utf32"):
        add("show_" + enc, P("Root", opt_list(lit("ab \t") | lit("\\\n") | cap(A_print) | A_space | until(lit("\x01"))) + eof), alpha="ab \t\\\n\x01\x7f\x80é\u2028\U0001F600", n=2, rnd=500, rlen=8, enc=enc,
            topts=OPTS, extra=["ab \tab\t \\\n", "ab ", "\\\r", "\x02\x1f\x7f\x80\x9f\xa0\x01", "\u20ac\ufffd\U00010000\U0010FFFF\x01", "ab\t\\ x"] )
    add("depth", P("N", lit("(") >> opt(recb("N")) + lit(")")), P("Root", opt(prd("N")) + eof), alpha="()", n=9, topts=[vopt(d=k, u=k % 2 == 1) for k in range(0, 7)],
        extra=["(" * k + ")" * k for k in (5, 15, 30, 31, 32, 33, 34, 40)])
    # token kinds
    K = ("Ka", "Kb", "Num", "Ws")
    for i, (mp, nm) in enumerate([([(a, "Ka"), (lit("bb"), "Kb"), (digits(), "Num")], "map"), ([], "own"), ([(a, "Kb"), (A_digit, "Num")], "both")]):
        ns = "k_" + nm
        top = kinds(ns, K, mp)
        d_ = dict((r.cpp, n) for r, n in mp)
        def m(r, own=None):
            if r.cpp in d_: return mapped(r, d_[r.cpp])
            return kind(r, ns + "::K::" + own, own) if own else r
        def km(r, own):   # kind and mapped: the rule with a kind is another token rule... its token type is the mapped one
            return kind(r, ns + "::K::" + own, own)
        rules = [m(a), m(lit("bb")), m(digits()), m(A_digit, None)]
        if nm == "own": rules = [km(a, "Ka"), km(lit("bb"), "Kb"), km(digits(), "Num"), km(token(c + opt(d)), "Kb")]
        if nm == "both": rules = [m(a), km(lit("bb"), "Ka"), m(A_digit)]
        r = rules[0]
        for q in rules[1:]: r = r | q
        if nm != "both": r = r | b | (semi >> cap(m(a) if nm == "map" else km(a, "Num")))
        add("kind_" + nm, P("Item", r), P("Root", opt_list(prd("Item") | comma) + eof, ws=A_blank), alpha="ab1c;, ", n=5, kinds=ns + "::K", top=top)
    # kinds of another enumeration are not seen
    add("kind_void", P("Root", opt_list(kind(a, "kv::K::Ka", "token") | b | kind(cap(c), "kv::K::Kb", "token") if False else kind(a, "kv::K::Ka", "token") | b) + eof), alpha="ab", n=4, top=kinds("kv", K, []))
    add("kind_pre", P("Root", opt_list(kind(a, "lexy::identifier_token_kind", "identifier") | kind(lit("b"), "lexy::whitespace_token_kind", "whitespace") | kind(A_digit, "lexy::error_token_kind", "error token") | A_blank) + eof), alpha="ab1 ", n=5)
    # values and failure
    add("val1", P("A", a >> cap(b)), P("B", prd("A") >> pos), P("Root", (peek(a) >> prd("B") | peek(c) >> prd("A") | else_ >> err(T(1))) + opt(prd("B")) + eof), alpha="abc", n=6)
    add("val2", P("A", a >> err(T(2)) + b), P("Root", opt_list(prd("A") | c | x >> err(T(3), y))), alpha="abcxy", n=5)
    return [g for g in gs if g]
