"""identifiers, reserved words, symbol tables"""
from gram import *
a, b, c, d, x, y, z = (lit(ch) for ch in "abcdxyz")
AB = lit_cls("a") / lit_cls("b")
def table(name, entries, cf=None, typ="int"):
    cpp = "static constexpr auto %s = lexy::symbol_table<%s>" % (name, typ)
    if cf: cpp += ".case_folding(dsl::%s)" % {"ascii": "ascii::case_folding", "u": "unicode::simple_case_folding"}[cf]
    for s, v in entries: cpp += ".map<LEXY_SYMBOL(%s)>(%d)" % (cstr(s), v)
    js = [((lit(s) if not cf else R("cf", "", l=lit(s), f=cf)), v) for s, v in entries]
    return cpp + ";\n", (name, js)
FOLD = {str(o): o + 32 for o in range(65, 91)}
FOLD.update({str(0x212a): ord("k"), str(0x17f): ord("s")})
def grammars():
    gs = []
    def add(name, rule, alpha, n, **kw): gs.append(G(name, [P("Root", rule)], alpha=alpha, n=n, **kw))
    for enc in ("utf8", "utf16", "utf32", "ascii"):
        add("id1_" + enc, ident(A_alpha, A_alnum) + pos + opt(ident(A_digit, A_digit)), "aZ1_", 5, enc=enc)
        add("id2_" + enc, opt(ident(A_alpha_u, A_word, [("is", [lit("ab"), lit("a")])])) + pos, "ab1_", 5, enc=enc)
    long = "abcdefghijklmnop"
    for enc in ("utf8", "utf16"):
        add("idlong_" + enc, ident(A_alpha, A_word) + pos + eof, "", 0, enc=enc,
            extra=[long[:k] + t for k in range(17) for t in ("", "-", "1", " x", "\x80" if enc == "utf16" else "~", "@", "[", "`", "{", "/", ":", "\0")] + [ch for ch in map(chr, range(128))] + ["a" * 8 + ch for ch in map(chr, range(128))] + ["a" + ch for ch in map(chr, range(128))])
    for enc in ("utf8",):
        for nm, cl in (("alpha", A_alpha), ("lower", A_lower), ("upper", A_upper), ("digit", A_digit), ("alnum", A_alnum), ("word", A_word), ("alphau", A_alpha_u), ("space", A_space), ("graph", A_graph), ("print", A_print), ("char", A_char), ("minus", A_alpha - lit_cls("q"))):
            # trailing class at every distance from the beginning of the identifier, each with each character afterwards
            add("idswar_" + nm, pos + ident(A_alpha, cl) + pos, "", 0, enc=enc, extra=["k" + ch for ch in map(chr, range(128))] + [("A" + ("aZ9_"[j] * k)) + ch for j in range(4) for k in (7, 8, 15) for ch in "@[`{/:_q~\0\x7f\n\x1f"])
    # reserved words, all four kinds, alone and together; as rule and as branch
    kinds = ("is", "pre", "cont", "suf")
    for k in kinds:
        add("res_" + k, ident(AB, AB / lit_cls("c"), [(k, [lit("ab")])]) + pos, "abc", 6)
        add("resb_" + k, (ident(AB, AB / lit_cls("c"), [(k, [lit("ab"), lit("b")])]) | lit("ab") | lit("b")) + pos, "abc", 6)
        add("resl_" + k, ident(AB, AB / lit_cls("c"), [(k, [lit("abc"), lit("ac"), lit("cc"), lit("a")])]) + pos, "abc", 6)
        add("rescf_" + k, opt(ident(A_alpha, A_alpha, [(k, [cf(lit("ab")), lit("c")])])) + pos, "aAbBcC", 4)
    add("resall", ident(AB, AB / lit_cls("c"), [("is", [lit("ab")]), ("pre", [lit("ba")]), ("suf", [lit("cc")]), ("cont", [lit("bcb")])]) + pos, "abc", 6)
    add("resrep", (ident(AB, AB / lit_cls("c"), [("is", [lit("a")]), ("is", [lit("bb")]), ("pre", [lit("ca")])]) | lit("a")) + pos, "abc", 6)
    add("reskw", (ident(AB, AB / lit_cls("c"), [("is", [kw("ab", AB, AB / lit_cls("c")), kw("abc", AB, AB / lit_cls("c"))])]) | kw("ab", AB, AB / lit_cls("c"))) + pos, "abc-", 5)
    add("resucf", opt(ident(A_alpha, -lit_cls("-"), [("is", [cf(lit("sk"), "u")]), ("pre", [lit("a")])])) + pos, "sSkKaſ\u212a-", 4, fold=FOLD)
    for k in kinds:
        # keywords, with their cases folded, as reserved identifiers of every kind, with the keyword as the other branch
        CK = cf(kw("ab", A_alpha, A_alpha))
        add("rescfkw_" + k, (ident(A_alpha, A_alpha, [(k, [CK])]) | CK) + pos, "abABc-", 4)
        add("reskwcf_" + k, (ident(A_alpha, A_alpha, [(k, [kw("ab", A_alpha, A_alpha), cf(lit("ca"))])]) | kw("ab", A_alpha, A_alpha) | cf(lit("ca"))) + pos, "abABc", 4)
    CU = cf(kw("sk", -lit_cls("-"), -lit_cls("-")), "u")
    add("rescfkwu", (ident(-lit_cls("-"), -lit_cls("-"), [("is", [CU])]) | CU) + pos, "sSkKaſK-", 4, fold=FOLD)
    gs.append(G("idws", [P("I", ident(A_lower, A_lower, [("is", [lit("if")])])), P("Root", list_(prd("I"), sep(lit(","))) + pos + eof, ws=A_space)], alpha="if, ", n=6))
    gs.append(G("idrec", [P("Root", try_(ident(AB, AB, [("pre", [lit("ab")])]), find(lit(";"))) + lit(";") + pos)], alpha="ab;", n=6))
    add("idpat", idp(AB, A_digit) + opt(cap(idp(A_digit, AB))) + pos, "ab1", 6)
    # symbols
    T1, t1 = table("t1", [("a", 1), ("ab", 2), ("abca", 3), ("b", 4), ("cb", 5)])
    for enc in ("utf8", "utf16", "utf32"):
        gs.append(G("sym_" + enc, [P("Root", sym(t1) + opt(sym(t1)) + pos)], pre=T1, alpha="abc", n=6, enc=enc))
        gs.append(G("symtok_" + enc, [P("Root", sym(t1, token(R("whileone", "dsl::while_one(%s)" % AB.cpp, r=AB))) + opt(sym(t1, lset(lit("c"), lit("cb")))) + pos)], pre=T1, alpha="abc", n=6, enc=enc))
        gs.append(G("symid_" + enc, [P("Root", (sym(t1, idp(AB, AB / lit_cls("c"))) | ident(AB, AB)) + pos)], pre=T1, alpha="abc", n=6, enc=enc))
        gs.append(G("symid2_" + enc, [P("Root", sym(t1, idp(AB, lit_cls("c") / lit_cls("a"))) + pos)], pre=T1, alpha="abc", n=6, enc=enc))
    gs.append(G("symerr", [P("Root", sym(t1, NONE, T(1)) + sym(t1, idp(AB, AB), T(2)) + pos)], pre=T1, alpha="abc", n=6))
    gs.append(G("symws", [P("Root", sym(t1) + sym(t1, idp(AB, AB)) + pos, ws=A_space)], pre=T1, alpha="ab ", n=7))
    gs.append(G("symrec", [P("Root", b_list(lit("("), lit(")"), sym(t1) >> pos, sep(lit(",")))), ], pre=T1, alpha="ab(,)", n=4, rnd=1500, rlen=9, extra=["(a,ab,b)", "(a,c,b)", "(a,,b)"]))
    T2, t2 = table("t2", [("sk", 1), ("s", 2), ("k1", 3)], cf="ascii")
    T3, t3 = table("t3", [("sk", 1), ("s", 2), ("kk", 3)], cf="u")
    gs.append(G("symacf", [P("Root", sym(t2) + opt(sym(t2, idp(A_alpha, A_alnum))) + pos)], pre=T2, alpha="sSkK1", n=5))
    for enc in ("utf8", "utf16", "utf32"):
        gs.append(G("symucf_" + enc, [P("Root", sym(t3) + opt(sym(t3, idp(-lit_cls("-"), -lit_cls("-")))) + pos)], pre=T3, alpha="sSkK\u212aſ-", n=4, enc=enc, fold=FOLD))
    # a large table: sparse transitions, shared prefixes
    words = ["if", "in", "int", "interface", "into", "is", "import", "i", "else", "elseif", "el", "e", "while", "when", "where", "w", "whiles", "z"]
    T4, t4 = table("t4", [(w, i + 10) for i, w in enumerate(words)])
    gs.append(G("symbig", [P("Root", opt(sym(t4)) + pos + opt(sym(t4, idp(A_lower, A_lower))) + pos)], pre=T4, extra=near(*words, alts="e-"), alpha="ifnte", n=4))
    add("resbig", (ident(A_lower, A_alnum, [("is", [lit(w) for w in words])]) | kw("interface", A_lower, A_alnum)) + pos, "ifnte", 4, extra=near(*words, alts="e-1"))
    return gs
