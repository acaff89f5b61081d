"""rules on code points, over well-formed and ill-formed text, and byte order marks"""
from gram import *
CAP = 14000
cp = Cls("dsl::code_point", S((0, 0x10FFFF)), "code-point", "any")
def grammars():
    gs = []
    def add(name, rule, alpha="", n=0, **kw): gs.append(G(name, [P("Root", rule)], alpha=alpha, n=n, **kw))
    S8 = [[x] for x in (0x41, 0x80, 0xBF, 0xC2, 0xE0, 0xA0, 0xED, 0x9F, 0xF0, 0x90, 0xF4, 0x8F, 0xF8)]
    S16 = [[x] for x in (0x41, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF)]
    S32 = [[x] for x in (0x41, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x110000)]
    for e, syms, n in (("utf8", S8, 3), ("utf16", S16, 4), ("utf32", S32, 3)):
        kw = dict(enc=e, syms=syms, rnd=400, rlen=12)
        add("cplist_" + e, opt_list(cap(cp)) + pos + any_, n=n, **kw)
        add("cpmust_" + e, cp + pos + opt(cp) + pos, n=n, **kw)
        add("cpnot_" + e, opt_list(cap(-lit_cls("A"))) + pos + eof, n=n, **kw)
        add("cpdel_" + e, delim(lit("A"), lit("B"), cp) + pos, n=n, enc=e, syms=syms + [[0x42]], rnd=300, rlen=10)
        add("cpuntil_" + e, until(lit("B")) + pos, n=n - 1, enc=e, syms=syms + [[0x42]], rnd=300, rlen=10)
        add("cptry_" + e, try_(cp, find(lit("B"))) + pos, n=n - 1, enc=e, syms=syms + [[0x42]], rnd=300, rlen=10)
        for k, c in enumerate("\x7f\x80\u07ff\u0800\ud7ff\ue000\uffff\U00010000\U0010ffff"):
            add("litcp%d_%s" % (k, e), opt(lit_cp(c) >> pos) + lit_cp("a" + c) + pos, enc=e, syms=[enc_units(x, e) for x in ("a", c)] + [[u] for u in enc_units(c, e)][:1], n=4, rnd=20)
    for e, syms in (("ascii", [[0x41], [0x7F], [0x80], [0xFE]]),):
        add("cplist_" + e, opt_list(cap(cp)) + pos + any_, n=4, enc=e, syms=syms)
    for r, ns in ((16, (2, 4, 5, 6)), (10, (7,)), (8, (7,)), (2, (21,)), ("lower", (6,)), ("upper", (6,))):
        for n in ns:
            al = {16: "0fD1g", 10: "0149x", 8: "0471", 2: "01x", "lower": "0f1dF", "upper": "0F1Df"}[r]
            ex = []
            for v in (0, 0x41, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x1FFFFF):
                t = ""; w = v; rx = radix_of(r)
                while w: t = "0123456789abcdef"[w % rx] + t; w //= rx
                t = t.rjust(n, "0")
                ex += [t, t.upper(), t[:-1], t + "0"]
            add("cpid%d_%s" % (n, r), cp_id(n, r) + pos, al, 2, extra=ex, rnd=60, rlen=n + 1)
    for ce, mx in (("utf8_encoding", 0xFF), ("utf16_encoding", 0xFFFF), ("utf32_encoding", 0xFFFFFFFF), ("ascii_encoding", 0x7F)):
        for n in (2, 4):
            add("cuid_%s%d" % (ce, n), cu_id("lexy::" + ce, mx, n) + pos, "0f78g", 3, extra=["ff", "7f", "80", "ffff", "00ff", "0100", "007f", "0080"], rnd=40)
    E = "lexy::encoding_endianness::"
    def bom(enc, en, u): return R("lit", "dsl::bom<lexy::%s, %s%s>" % (enc, E, en), u=u, s="".join("\\%02X" % x for x in u))
    boms = [("u8l", bom("utf8_encoding", "little", [0xEF, 0xBB, 0xBF])), ("u8b", bom("utf8_char_encoding", "big", [0xEF, 0xBB, 0xBF])),
            ("u16l", bom("utf16_encoding", "little", [0xFF, 0xFE])), ("u16b", bom("utf16_encoding", "big", [0xFE, 0xFF])),
            ("u32l", bom("utf32_encoding", "little", [0xFF, 0xFE, 0, 0])), ("u32b", bom("utf32_encoding", "big", [0, 0, 0xFE, 0xFF]))]
    for n, b in boms:
        add("bom_" + n, opt(b) + pos + b + pos, enc="byte", syms=[[0xEF], [0xBB], [0xBF], [0xFE], [0xFF], [0]], n=3, extra=[b.kw["u"] * 2, b.kw["u"] * 3, b.kw["u"] + b.kw["u"][:1]], rnd=40)
    add("bom_none", R("lit", "dsl::bom<lexy::ascii_encoding, %slittle>" % E, u=[], s="") + pos, enc="byte", syms=[[0xEF], [0]], n=2)
    return gs
