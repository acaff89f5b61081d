"""literals, keywords, literal sets, case folding, follow restrictions in every encoding"""
from gram import *
a, b, c, d, x, y, z = (lit(ch) for ch in "abcdxyz")
ID = (A_alpha, A_alnum)
U = {"A": "a", "B": "b", "C": "c", "K": "k", "S": "s", "I": "i", "N": "n", "T": "t", "X": "x", "\u212a": "k", "\u017f": "s", "Ä": "ä", "É": "é", "Σ": "σ", "ς": "σ",
     "\u1e9e": "ß", "\U00010400": "\U00010428", "Ω": "ω", "\u2126": "ω"}
FOLD = {str(ord(k)): ord(v) for k, v in U.items()}
for ch in "ABCDEFGHIJKLMNOPQRSTUVWXYZ": FOLD[str(ord(ch))] = ord(ch) + 32
def grammars():
    gs = []
    def add(name, rule, alpha, n, **kw): gs.append(G(name, [P("Root", rule)], alpha=alpha, n=n, **kw))
    long = "abcdefghijklmnopqrstuvwxyz"
    for enc in ("utf8", "utf16", "utf32", "ascii", "default"):
        # every length around the word size, so that every residue of the wide comparison occurs
        for n in (1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25):
            w = long[:n]
            if enc in ("ascii", "default") and n in (2, 3, 5, 12, 23): continue
            add("lit_%s_%d" % (enc, n), pos + lit(w) + pos, "", 0, enc=enc, extra=near(w, alts="x\0") + [w + "y" * k for k in range(1, 9)])
        add("seq_" + enc, lit("abcdefgh") + lit("ij") + cap(lit("klmnopqrs")) + pos, "", 0, enc=enc, extra=near("abcdefghijklmnopqrs", alts="xj"))
        add("set_" + enc, opt(lset(lit("a"), lit("ab"), lit("abcd"), lit("b"), lit("bca"), lit("abcb"))) + cap(lset(lit("c"), lit("ca"), lit("caa"), lit("d"))) + pos, "abcd", 5, enc=enc)
        add("kw_" + enc, (kw("ab", *ID) | kw("abc", *ID) | lit("a")) + pos, "abc1-", 4, enc=enc)
        add("kws_" + enc, opt(lset(kw("ab", *ID), lit("abc"), kw("abcd", *ID), lit("-"), nf(lit("--"), lit_cls("-")))) + pos, "abcd1-", 4, enc=enc)
        add("nf_" + enc, opt(nf(lit("a"), lit_cls("a"))) + nf(lit("bb"), A_digit) + pos, "ab1", 5, enc=enc)
    W = "abcdefgh"
    add("wide16", lit("abcd") + lit("efgh", "u"), "", 0, enc="utf16", extra=near("abcdefgh", alts="xeaĀ"), std="c++20")
    add("wide32", lit("abcd", "U") + lit("efgh"), "", 0, enc="utf32", extra=near("abcdefgh", alts="xea\U00010061"), std="c++20")
    # ASCII literals against units whose low byte agrees
    add("alias16", lit("abcde") + pos, "", 0, enc="utf16", extra=near("abcde", alts="šţ\u0161\u6161"))
    add("alias32", lit("abcde") + pos, "", 0, enc="utf32", extra=near("abcde", alts="\u0161\U00016161"))
    for enc in ("utf8", "utf16", "utf32"):
        add("ulit_" + enc, lit_cp("aé€\U00010348z") + pos, "", 0, enc=enc, extra=near("aé€\U00010348z", alts="é€\U00010349x"))
        add("ulong_" + enc, lit_cp("ééééééééé€€") + pos, "", 0, enc=enc, extra=near("ééééééééé€€", alts="èe€"))
        add("uset_" + enc, lset(lit_cp("é"), lit_cp("éa"), lit_cp("è"), lit_cp("\U00010348"), lit_cp("aé"), lit("a")) + pos, "éèa\U00010348", 4, enc=enc)
        add("ucf_" + enc, cf(lit_cp("käσ"), "u") + pos, "kK\u212aäÄσΣς", 3, enc=enc, fold=FOLD, extra=near("käσ", "K\u00c4Σ", alts="x\u212a"), std="c++17",
            syms=[[0xC3], [0xA4], [0xE2, 0x84]] if enc == "utf8" else [[0xD801]] if enc == "utf16" else [])
        add("ucfset_" + enc, opt(lset(cf(lit("abc"), "u"), cf(lit("a"), "u"), cf(lit_cp("äb"), "u"), cf(lit_cp("ä"), "u"), cf(lit_cp("ks"), "u"))) + pos, "aAbBcÄäK\u212aſ", 3, enc=enc, fold=FOLD)
        add("ucfkw_" + enc, opt(cf(kw("is", *ID), "u")) + cf(kw("ab", *ID), "u") + pos, "iIsSſaAbB1", 3, enc=enc, fold=FOLD, rnd=1200, rlen=6, extra=["isab", "IſAb", "isab1", "is-ab", "is1ab"])
        add("ucfnf_" + enc, cf(nf(lit("ab"), A_digit), "u") + opt(nf(cf(lit("cd"), "u"), A_lower)) + pos, "aAbBcCdD1", 3, enc=enc, fold=FOLD, rnd=1200, rlen=6, extra=["abcd", "ABCD", "ab1cd", "AB1CDA", "ABa", "abcdA", "abCDK", "abcda", "abcd1", "abcd\u212a", "abcd\u017f"])
        add("ucf4_" + enc, cf(lit_cp("\U00010428ß"), "u") + pos, "\U00010400\U00010428ßẞ", 3, enc=enc, fold=FOLD)
    for enc in ("utf8", "utf16", "ascii", "default"):
        add("acf_" + enc, opt(cf(lit("abc"))) + cf(lit("z[")) + pos, "aAbBcCzZ[{@", 2, enc=enc, extra=near("abcz[", "ABCZ[", "aBcz{", alts="@`[{Z"), rnd=800, rlen=6)
        add("acfset_" + enc, lset(cf(lit("ab")), cf(lit("abc")), lit("b"), cf(kw("bc", *ID))) + pos, "aAbBcC1", 4, enc=enc)
        add("acfkw_" + enc, opt(cf(kw("ab", A_lower, A_lower))) + cf(kw("ba", *ID)) + pos, "aAbB1", 5, enc=enc)
        add("acfnf_" + enc, opt(nf(cf(lit("ab")), A_lower)) + cf(nf(lit("b"), lit_cls("c"))) + opt(nf(cf(lit("d")), A_upper)) + pos, "aAbBcCdD", 4, enc=enc)
        add("acflong_" + enc, cf(lit("abcdefghijkl")) + pos, "", 0, enc=enc, extra=near("abcdefghijkl", "ABCDEFGHIJKL", "aBcDeFgHiJkL", alts="@xZ"))
    SYM = "static constexpr auto tab = lexy::symbol_table<int>.map<LEXY_SYMBOL(\"a\")>(1).map<LEXY_SYMBOL(\"ab\")>(2).map<LEXY_SYMBOL(\"bc\")>(3);\n"
    gs.append(G("settab", [P("Root", R("lset", "dsl::literal_set(tab)", ls=[lit("a"), lit("ab"), lit("bc")]) + pos)], alpha="abc", n=5, pre=SYM))
    add("setops", lset_op(lit("ab"), lit("a"), lit("cab")) + lset_macro(lit("b"), lit("bb")) + pos, "abc", 6)
    add("litc", lit_c("a") + opt(lit_c("b")) + lit_c("\0") + pos, "ab\0", 5)
    add("errname", errtok(lit("ab"), T(1)) + errtok(lset(lit("c"), lit("d")), T(2)) + errtok(kw("ab", *ID), T(3)), "abcd", 5)
    return gs
