"""digits and integers"""
from gram import *
def num(v, radix, up=False):
    if v == 0: return "0"
    s = ""
    while v: s = "0123456789abcdef"[v % radix] + s; v //= radix
    return s.upper() if up else s
INTS = {"unsigned char": 255, "signed char": 127, "short": 32767, "unsigned short": 65535, "int": 2**31-1, "unsigned": 2**32-1, "long long": 2**63-1, "unsigned long long": 2**64-1}
def around(maxv, radix, up=False):
    """digit strings around the limit"""
    out = []
    for v in {maxv - 1, maxv, maxv + 1, maxv + 2, maxv // radix, maxv // radix + 1, maxv * radix, maxv * radix + radix - 1, maxv * 2 + 1, maxv * 2 + 2, maxv // 2, 0, 1, radix - 1, radix}:
        t = num(v, radix, up)
        out += [t, "0" + t, "000" + t, t + "x", t + "0"]
    t = num(maxv, radix, up)
    for k in range(len(t)):
        for d in "0123456789abcdef"[:radix]:
            d = d.upper() if up else d
            out.append(t[:k] + d + t[k+1:])
    m = ("0123456789abcdef"[radix-1])
    m = m.upper() if up else m
    out += [m * k for k in range(1, len(t) + 3)] + ["1" + "0" * k for k in range(len(t) + 2)]
    return out
def seps(ss, s="_"):
    out = []
    for t in ss:
        out += [s.join(t), t[:1] + s + t[1:], t[:-1] + s + t[-1:], t + s, s + t]
        if len(t) > 4: out += [t[:3] + s + t[3:], t[:-3] + s + t[-3:] + s + "x"]
    return out
def grammars():
    gs = []
    def add(name, rule, alpha, n, **kw): gs.append(G(name, [P("Root", rule)], alpha=alpha, n=n, **kw))
    us, q = lit("_"), lit("'")
    bases = (2, 8, 10, 16, "lower", "upper")
    for b in bases:
        n = str(b)
        allc = [ch for ch in map(chr, range(128))]
        add("dig_" + n, digits(b) + pos + opt(digit_cls(b)) + pos, "019aF", 4, extra=["1" * k + ch for k in (0, 1, 7, 8) for ch in allc])
        add("digs_" + n, digits(b, us) + pos, "01F_", 5)
        add("digz_" + n, digits(b, nlz=True) + pos, "01a_", 5)
        add("digsz_" + n, opt(digits(b, us, nlz=True)) + pos + opt(digits(b, us, nlz=True)), "01_f", 6)
        add("nd_" + n, ndigits(3, b) + pos + opt(ndigits(2, b)) + pos, "01fA", 6)
        add("nds_" + n, ndigits(3, b, us) + pos + opt(cap(ndigits(2, b, us))) + pos, "01_", 7)
    for enc in ("utf16", "utf32", "ascii", "default"):
        add("dig_e_" + enc, digits(10, us) + pos + opt(ndigits(4, 16)) + pos, "019a_", 5, enc=enc, extra=["1" * k + ch for k in (0, 3, 4, 7, 8) for ch in map(chr, range(128))])
    add("zero", zero + pos + opt(zero) + pos, "01", 4)
    add("digbr", (zero >> pos | digits(10) >> lit("x") | digits(16)) + pos, "01ax", 5)
    # values, every type: around the largest value
    for ty, mx in INTS.items():
        nm = ty.replace(" ", "")
        for b in (10, 16, 2, 8) if mx < 2**33 else (10, 16):
            small = mx < 300
            a = {10: "0129", 16: "07fF", 2: "01", 8: "0137"}[b]
            add("i_%s_%d" % (nm, b), integer(ty, mx, digits(b), b, deduce=True) + pos, a, 4 if small else 2, extra=around(mx, b))
        add("is_" + nm, integer(ty, mx, digits(10, us), 10, deduce=True) + pos, "012_", 5 if mx < 300 else 3, extra=seps(around(mx, 10)))
    for b, up in (("lower", False), ("upper", True)):
        add("ib_" + b, integer("unsigned char", 255, digits(b), b, deduce=True) + pos, "01fF", 4, extra=around(255, 16, up))
    add("iz", integer("unsigned char", 255, digits(10, nlz=True), 10, deduce=True) + pos, "0125", 5)
    add("isz", (integer("unsigned char", 255, digits(10, us, nlz=True), 10, deduce=True) | zero) + pos, "0125_", 5)
    # explicit base and any token; characters that are not digits don't count
    tok = token(digits(10) + opt(lit("u")))
    add("itok", integer("unsigned char", 255, tok, 10) + pos, "025u", 5)
    add("itok2", integer("unsigned char", 255, token(lit("0x") + digits(16, q)), 16) + pos, "0xf'", 6, extra=["0x" + t for t in seps(around(255, 16), "'")])
    add("itokb", (integer("short", 32767, token(digits(10) + lit("s")), 10) | integer("int", 2**31-1, digits(10), 10, deduce=True)) + pos, "3s2", 3, extra=[t + "s" for t in around(32767, 10)] + around(2**31-1, 10))
    add("itoki", integer("unsigned char", 255, token(while_one(A_alnum)), 16) + pos, "0fgF", 5)

    # n_digits
    for k in (2, 3, 4):
        add("in%d" % k, integer("unsigned char", 255, ndigits(k, 10), 10, deduce=True) + pos, "0256", 5)
        add("inx%d" % k, integer("unsigned char", 255, ndigits(k, 16), 16, deduce=True) + pos, "0fF1", 5)
        add("ins%d" % k, integer("unsigned char", 255, ndigits(k, 10, us), 10, deduce=True) + pos, "025_", 6)
    add("ins8", integer("unsigned short", 65535, ndigits(6, 16, us), 16, deduce=True) + pos, "0f_", 5, extra=seps(around(65535, 16)) + ["00ffff", "0_0_f_f_f_f", "0_1_0_0_0_0", "010000", "00fff_f"])
    # bounded and unbounded
    add("bnd", integer("lexy::bounded<int, 100>", 100, digits(10), 10, deduce=True) + pos, "0129", 5)
    add("bnd2", integer("lexy::bounded<unsigned char, 200>", 200, digits(10, us), 10, deduce=True) + pos, "0125_", 5)
    add("bnd3", integer("lexy::bounded<unsigned, 0x1FFF>", 0x1fff, digits(16), 16, deduce=True) + pos, "01f2", 6)
    add("bnd4", integer("lexy::bounded<unsigned char, 31>", 31, digits(2), 2, deduce=True) + pos, "01", 9)
    add("unb", integer("lexy::unbounded<unsigned long long>", 0, digits(10), 10, deduce=True) + pos, "019", 4, extra=[t for t in around(2**62, 10) if int(t.replace("x", "") or "0") < 2**64])
    add("cp", integer("lexy::code_point", 0x10ffff, digits(16), 16, deduce=True, cp=True) + pos, "01f", 5, extra=around(0x10ffff, 16))
    for k in (2, 4, 5, 6, 8):
        add("cpid%d" % k, cp_id(k) + pos, "01fD", 4, extra=around(0x10ffff, 16) + ["0" * (k - len(t)) + t for t in ("10ffff", "110000", "d800", "dfff", "0", "ffff", "41", "10000", "20ac") if len(t) <= k])
    add("cpid7d", cp_id(7, 10) + pos, "01", 4, extra=["%07d" % v for v in (0, 65, 1114111, 1114112, 1200000, 9999999, 999999)])
    add("cuid", cu_id("lexy::utf16_encoding", 65535, 4) + cu_id("lexy::byte_encoding", 255, 2) + pos, "0f", 7, extra=["ffffff", "000000", "d800a0"])
    add("cuid5", cu_id("lexy::utf16_encoding", 65535, 5) + pos + cu_id("lexy::ascii_encoding", 127, 2) + pos, "01f8", 4, extra=["0ffff7f", "1000000", "00fff80", "0ffff80", "fffff7f"])
    # sign, as_integer
    gs.append(G("sgn", [P("I", sign + integer("int", 2**31-1, digits(10), 10, deduce=True), val="int"), P("J", minus_sign + integer("unsigned char", 255, digits(10), 10, deduce=True), val="int", itype="int"), P("Root", prd("I") + opt(lit(",") >> prd("J")) + pos)], alpha="+-012,", n=5, extra=["-2147483647", "2147483647", "+2147483647", "-2147483648", "-0", "-5,-255", "1,255", "1,-256"]))
    gs.append(G("sgnroot", [P("Root", plus_sign + integer("short", 32767, digits(10), 10, deduce=True) + eof, val="int", itype="short")], alpha="+-019", n=4, extra=["+" + t for t in around(32767, 10)] + around(32767, 10)))
    add("sgnws", (sign + integer("int", 2**31-1, digits(10), 10, deduce=True) + pos), "", 0)
    gs[-1] = G("sgnws", [P("Root", sign + integer("int", 2**31-1, digits(10, us), 10, deduce=True) + pos, ws=A_space)], alpha="+- 1_", n=5)
    gs.append(G("intws", [P("N", integer("unsigned char", 255, digits(10, us), 10, deduce=True)), P("Root", b_opt_list(lit("["), lit("]"), prd("N"), sep(lit(","))) + pos, ws=A_space)], alpha="[], 3_", n=4, rnd=2500, rlen=10, extra=["[1,2,300,4]", "[1_,2]", "[255_ ,256]", "[, 1]", "[1 2]"]))
    return gs
