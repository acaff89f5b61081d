"""bytes, binary integers, bits"""
import random
from gram import *
def u(*bs): return R("lit", "dsl::lit_b<%s>" % ", ".join(map(str, bs)), u=list(bs), s="".join("\\%02X" % x for x in bs))
def lit_pos(n):
    r = pos
    for _ in range(n % 4): r = r + pos
    return r
ALL = [[x] for x in range(256)]
def grammars():
    gs = []
    def add(name, rule, syms, n, **kw): gs.append(G(name, [P("Root", rule)], alpha="", syms=[[x] for x in syms], n=n, enc="byte", **kw))
    # bytes of every kind; alone, as branch, captured
    K = {"any": ("", ()), "range": ("range", (0x20, 0x80)), "rangeff": ("range", (0x80, 0xFF)), "range1": ("range", (7, 7)), "set": ("set", (0, 0x41, 0xFF, 0x80)), "set2": ("set", (0x7F, 0x80)), "ascii": ("ascii", ()), "pred": ("if", (0x10, 0xF0))}
    for k, (kind, args) in K.items():
        syms = {"any": (0, 0x80, 0xFF), "range": (0x1F, 0x20, 0x80, 0x81), "rangeff": (0x7F, 0x80, 0xFF, 0), "range1": (6, 7, 8), "set": (0, 0x41, 0xFF, 0x80, 1), "set2": (0x7E, 0x7F, 0x80, 0x81), "ascii": (0, 0x7F, 0x80, 0xFF), "pred": (0xF, 0x10, 0xF0, 0xF1)}[k]
        for n in (1, 2, 3, 5):
            b = bytes_(n, kind, *args)
            add("b%s%d" % (k, n), b + pos, syms, 5 if n < 5 else 6, extra=[x * n for x in ALL] if n == 1 else [])
        add("bb" + k, (bytes_(2, kind, *args) >> lit_pos(1)) | (bytes_(1, kind, *args) >> lit_pos(2)) | (else_ >> lit_pos(3)), syms, 4)
        add("bc" + k, cap(bytes_(3, kind, *args)) + opt(cap(bytes_(2, kind, *args))) + pos + eof, syms, 6)
        add("bl" + k, list_(cap(bytes_(2, kind, *args))) + pos + eof, syms, 6)
    add("until", until(bytes_(2, "set", 1, 2)) + pos, (1, 2, 3), 6)
    add("lit", u(0, 255, 0) + opt(u(255)) + pos, (0, 255, 1), 6)
    # padding
    for n, v in ((1, 0), (2, 0), (3, 0xFF), (4, 0x55), (5, 0x80)):
        add("pad%d" % n, padding(n, v) + pos, (v, v ^ 1, v ^ 0x80), 6 if n > 3 else 5)
        add("padb%d" % n, (padding(n, v) >> bytes_(1, "set", 7, 8) + pos) | else_ >> pos, (v, v ^ 1, 7), 6)
        add("padl%d" % n, list_(padding(n, v)) + pos + eof, (v, v ^ 1), 9)
    # integers: all byte positions distinguishable; every prefix
    rng = random.Random(5)
    for n in (1, 2, 4, 8):
        for en in ("", "little", "big"):
            if n == 1 and en: continue
            ex = [[rng.choice((0, 1, 0x7F, 0x80, 0xFF, rng.randrange(256))) for _ in range(n + rng.choice((0, 0, 0, -1, 1, n)))] for _ in range(60)] + [[0xFF if i == j else 0 for i in range(n)] for j in range(n)] + [list(range(1, n + 1)), [0xFF] * n, [0] * n, [0x80] * n]
            if n == 1: ex += ALL
            i = bint(n, en)
            add("i%d%s" % (8 * n, en), i + pos, (0, 0x80, 0xFF) if n < 8 else (), 3 if n < 4 else 4, extra=ex)
            add("ib%d%s" % (8 * n, en), (i >> pos) | (bytes_(1) >> lit_pos(9)) | else_ >> lit_pos(8), (1, 0xFE) if n < 8 else (), n + 1 if n < 8 else 0, extra=ex)
            add("il%d%s" % (8 * n, en), list_(bint(n, en)) + pos + eof, (), 0, extra=ex + [a + b for a in ex[:12] for b in ex[:12]])
            # with a rule of its own: right and wrong counts
            add("it%d%s" % (8 * n, en), bint(n, en, bytes_(n, "ascii")) + pos, (0, 0x7F, 0x80) if n < 4 else (), 3, extra=ex + [[x & 0x7F for x in e] for e in ex])
            add("im%d%s" % (8 * n, en), opt(bint(n, en, token(u(1) | u(2, 3) | u(4, 5, 6, 7) | u(8, 9, 10, 11, 12, 13, 14, 15)))) + pos, (), 0, extra=[[1], [2, 3], [2], [4, 5, 6, 7], [4, 5, 6], list(range(8, 16)), list(range(8, 15)), [], [9]])
            add("imn%d%s" % (8 * n, en), bint(n, en, token(u(1) | u(2, 3) | u(4, 5, 6, 7) | u(8, 9, 10, 11, 12, 13, 14, 15))) + pos, (), 0, extra=[[1], [2, 3], [2], [4, 5, 6, 7], [4, 5, 6], list(range(8, 16)), list(range(8, 15)), [], [9]])
    add("mix", bint(2, "big") + bint(1) + bint(2, "little") + padding(1) + bint(4) + pos + eof, (), 0, extra=[[rng.randrange(256) if k != 5 or rng.random() < .5 else 0 for k in range(rng.choice((10, 10, 10, 9, 6, 5, 11)))] for _ in range(150)])
    # bits: every byte for each pattern
    pats = [tuple("00000000"), tuple("11111111"), tuple("10101010"), ("n", 0xA, "n", 5), ("a", 8)]
    def norm(p):
        out, i = [], 0
        while i < len(p):
            if p[i] in ("n", "a"): out.append((p[i], p[i+1])); i += 2
            else: out.append(p[i]); i += 1
        return out
    P_ = [norm(p) for p in pats]
    for k in range(36):
        p, left = [], 8
        while left:
            c = rng.choice(["0", "1", "_", "n", "a"])
            if c == "n" and left >= 4: p.append(("n", rng.randrange(16))); left -= 4
            elif c == "a": w = rng.randint(1, min(left, 4)); p.append(("a", w)); left -= w
            elif c in "01_": p.append(c); left -= 1
        P_.append(p)
    for v in range(16): P_ += [[("n", v), ("a", 4)], [("a", 4), ("n", v)]]
    for k, p in enumerate(P_): add("bit%d" % k, bits(*p) + pos, (), 1, extra=ALL)
    add("bitseq", bits("1", "1", "0", ("a", 5)) + bits("1", "0", ("a", 6)) + pos, (0xC0, 0xDF, 0xE0, 0x7F, 0x80, 0xBF), 4)
    add("bitb", (bits("0", ("a", 7)) >> lit_pos(1)) | (bits("1", "1", "0", ("a", 5)) + lit_pos(2) if False else bits("1", "1", "0", ("a", 5)) >> bits("1", "0", ("a", 6))) | bint(1, "", bits(("n", 15), ("a", 4))) >> pos, (0x7F, 0xC3, 0xA4, 0xF1, 0x80), 4)
    add("bitc", bint(1, "", bits("1", ("a", 7))) + cap(bits(("a", 7), "1")) + pos, (0x80, 0xFF, 0x7F, 0x01, 0x00), 4)
    # whitespace after binary rules
    gs.append(G("ws", [P("Root", bint(2, "big") + bytes_(1, "range", 1, 9) + padding(2) + bits("1", ("a", 7)) + pos, ws=u(0xEE))], alpha="", syms=[[1], [0], [0xEE], [0x80]], n=6, enc="byte"))
    gs.append(G("wsl", [P("Root", list_(bint(2, "little"), sep(u(0x2C))) + pos + eof, ws=u(0x20))], alpha="", syms=[[1], [0x20], [0x2C]], n=7, enc="byte"))
    # in productions
    gs.append(G("prod", [P("Len", bint(1, "", bytes_(1, "range", 1, 3))), P("Item", prd("Len") >> padding(1, 9) + bint(2, "big"), tok=True), P("Root", list_(prd("Item")) + pos + eof)], alpha="", syms=[[1], [4], [9]], n=8, enc="byte"))
    return gs
