"""Grammars as data: every rule object carries the JSON form read by the TLA+ machine
(spec/Machine.tla) and the C++ expression (public dsl only) compiled against /repo."""
import itertools, json, random

def cstr(s, prefix=""):
    out = ""
    for ch in s:
        o = ord(ch)
        if ch in '"\\': out += "\\" + ch
        elif 0x20 <= o < 0x7f: out += ch
        elif o < 0x20 or o == 0x7f: out += "\\%03o" % o
        elif o < 0x10000: out += "\\u%04x" % o
        else: out += "\\U%08x" % o
    return prefix + '"' + out + '"'

def enc_units(s, enc):
    if enc == "utf8": return list(s.encode("utf-8"))
    if enc == "utf16":
        b = s.encode("utf-16-le"); return [b[i] | b[i+1] << 8 for i in range(0, len(b), 2)]
    if enc == "utf32": return [ord(c) for c in s]
    return [ord(c) for c in s]

def vis(s):
    r = ""
    for ch in s:
        o = ord(ch)
        if o == 0: r += "\\0"
        elif ch == "\r": r += "\\r"
        elif ch == "\n": r += "\\n"
        elif ch == "\t": r += "\\t"
        elif ch == "\\": r += "\\\\"
        elif 0x20 <= o < 0x7f: r += ch
        elif o < 0x10000: r += "\\u%04X" % o
        else: r += "\\U%08X" % o
    return r

class R:
    def __init__(self, o, cpp, **kw):
        self.o, self.cpp, self.kw = o, cpp, kw
    def __add__(a, b):
        a_ = a.kw["rs"] if a.o == "seq" else [a]
        b_ = b.kw["rs"] if b.o == "seq" else [b]
        return R("seq", "(%s + %s)" % (a.cpp, b.cpp), rs=a_ + b_)
    def __or__(a, b):
        a_ = a.kw["rs"] if a.o == "alt" else [a]
        b_ = b.kw["rs"] if b.o == "alt" else [b]
        return R("alt", "(%s | %s)" % (a.cpp, b.cpp), rs=a_ + b_)
    def __rshift__(a, b):
        b_ = b.kw["rs"] if b.o == "seq" else [b]
        if a.o == "br":   # a >> b >> c
            return R("br", "(%s >> %s)" % (a.cpp, b.cpp), c=a.kw["c"], rs=a.kw["rs"] + b_)
        return R("br", "(%s >> %s)" % (a.cpp, b.cpp), c=a, rs=b_)
    def json(self, enc):
        def conv(x):
            if isinstance(x, R): return x.json(enc)
            if isinstance(x, Cls): return x.cls
            if isinstance(x, Txt): return enc_units(x.s, enc)
            if isinstance(x, (list, tuple)): return [conv(y) for y in x]
            if isinstance(x, dict): return {k: conv(v) for k, v in x.items()}
            return x
        d = {"o": self.o}
        for k, v in self.kw.items(): d[k] = conv(v)
        return d

class Txt:
    def __init__(self, s): self.s = s

NONE = R("none", "")

# ---------------------------------------------------------------- classes
class Cls(R):
    """a character class; usable as a rule (token)"""
    def __init__(self, cpp, cls, name, kind="token", ascii=None):
        self.cls, self.name, self.kind = cls, name, kind
        self.ascii = ascii if ascii is not None else False
        super().__init__("cc", cpp, c=cls, n=name, k=kind, ascii=self.ascii)
    def __truediv__(a, b): return Cls("(%s / %s)" % (a.cpp, b.cpp), {"k": "alt", "cs": [a.cls, b.cls]}, "union", ascii=a.ascii and b.ascii)
    def __sub__(a, b): return Cls("(%s - %s)" % (a.cpp, b.cpp), {"k": "minus", "a": a.cls, "b": b.cls}, "minus", ascii=a.ascii)
    def __and__(a, b): return Cls("(%s & %s)" % (a.cpp, b.cpp), {"k": "and", "cs": [a.cls, b.cls]}, "intersection", ascii=a.ascii and b.ascii)
    def __neg__(a): return Cls("(-%s)" % a.cpp, {"k": "not", "c": a.cls}, "complement", ascii=False)
    def named(self, tagcpp, name): return Cls("(%s).error<%s>" % (self.cpp, tagcpp), self.cls, name)

def S(*rs): return {"k": "set", "rs": [list(r) for r in rs]}
def ascii_cls(n, name, *rs): return Cls("dsl::ascii::" + n, S(*rs), name, ascii=True)
A_control = ascii_cls("control", "ASCII.control", (0, 31), (127, 127))
A_blank = ascii_cls("blank", "ASCII.blank", (32, 32), (9, 9))
A_newline = ascii_cls("newline", "ASCII.newline", (10, 10), (13, 13))
A_other_space = ascii_cls("other_space", "ASCII.other-space", (11, 12))
A_space = ascii_cls("space", "ASCII.space", (32, 32), (9, 13))
A_lower = ascii_cls("lower", "ASCII.lower", (97, 122))
A_upper = ascii_cls("upper", "ASCII.upper", (65, 90))
A_alpha = ascii_cls("alpha", "ASCII.alpha", (97, 122), (65, 90))
A_alpha_u = ascii_cls("alpha_underscore", "ASCII.alpha-underscore", (97, 122), (65, 90), (95, 95))
A_digit = ascii_cls("digit", "ASCII.digit", (48, 57))
A_alnum = ascii_cls("alpha_digit", "ASCII.alpha-digit", (97, 122), (65, 90), (48, 57))
A_word = ascii_cls("word", "ASCII.word", (97, 122), (65, 90), (48, 57), (95, 95))
A_punct = ascii_cls("punct", "ASCII.punct", (33, 47), (58, 64), (91, 96), (123, 126))
A_graph = ascii_cls("graph", "ASCII.graph", (33, 126))
A_print = ascii_cls("print", "ASCII.print", (32, 126))
A_char = ascii_cls("character", "ASCII", (0, 127))

BASES = {2: "binary", 8: "octal", 10: "decimal", 16: "hex", "lower": "hex_lower", "upper": "hex_upper"}
def radix_of(b): return b if isinstance(b, int) else 16
def digit_cls(radix):
    n = BASES[radix]
    rs = {2: [(48, 49)], 8: [(48, 55)], 10: [(48, 57)], 16: [(48, 57), (65, 70), (97, 102)], "lower": [(48, 57), (97, 102)], "upper": [(48, 57), (65, 70)]}[radix]
    return Cls("dsl::digit<dsl::%s>" % n, S(*rs), "digit." + n.replace("_", "-"), "digits", ascii=True)
zero = Cls("dsl::zero", S((48, 48)), "digit.zero", "digits", ascii=True)

# ---------------------------------------------------------------- tokens
def lit(s, prefix=""): return R("lit", "LEXY_LIT(%s)" % cstr(s, prefix), u=Txt(s), s=vis(s))
def lit_c(s): return R("lit", "dsl::lit_c<%s>" % ("'\\%03o'" % ord(s)), u=Txt(s), s=vis(s))
def idp(lead, trail): return R("idp", "dsl::identifier(%s, %s).pattern()" % (lead.cpp, trail.cpp), l=lead.cls, t=trail.cls, ln=lead.name)
def kw(s, lead, trail): return R("kw", "LEXY_KEYWORD(%s, dsl::identifier(%s, %s))" % (cstr(s), lead.cpp, trail.cpp), u=Txt(s), s=vis(s), l=lead.cls, t=trail.cls)
def nf(l, c): return R("nf", "dsl::not_followed_by(%s, %s)" % (l.cpp, c.cpp), l=l, c=c.cls)
def cf(l, f="ascii"): return R("cf", ("dsl::ascii::case_folding(%s)" if f == "ascii" else "dsl::unicode::simple_case_folding(%s)") % l.cpp, l=l, f=f)
def lset(*ls): return R("lset", "dsl::literal_set(%s)" % ", ".join(l.cpp for l in ls), ls=list(ls))
any_ = R("any", "dsl::any")
def until(t): return R("until", "dsl::until(%s)" % t.cpp, t=t)
def until_eof(t): return R("untileof", "dsl::until(%s).or_eof()" % t.cpp, t=t)
def digits(radix=10, sep=NONE, nlz=False):
    n = BASES[radix]
    cpp = "dsl::digits<dsl::%s>" % n
    if sep is not NONE: cpp += ".sep(%s)" % sep.cpp
    if nlz: cpp += ".no_leading_zero()"
    c = digit_cls(radix)
    return R("digits", cpp, b={"c": c.cls, "n": c.name}, sep=sep, nlz=nlz)
def ndigits(n, radix=10, sep=NONE):
    nm = BASES[radix]
    cpp = "dsl::n_digits<%d, dsl::%s>" % (n, nm)
    if sep is not NONE: cpp += ".sep(%s)" % sep.cpp
    c = digit_cls(radix)
    return R("ndigits", cpp, n=n, b={"c": c.cls, "n": c.name}, sep=sep)
def token(r): return R("token", "dsl::token(%s)" % r.cpp, r=r)
def errtok(r, tag): return R("errtok", "(%s).error<%s>" % (r.cpp, tag.cpp), r=r, tag=tag.msg)
def kind(r, k, name): return R("kind", "(%s).kind<%s>" % (r.cpp, k), r=r, kn=name)

def mapped(r, name):
    """its kind comes from token_kind_map_for (in the top of the grammar)"""
    return R("kind", r.cpp, r=r, kn=name)
def kinds(ns, names, mapping):
    """an enumeration of token kinds; mapping: [(rule, name)]"""
    t = "namespace %s { enum class K { %s };\n" % (ns, ", ".join(names))
    t += "constexpr const char* token_kind_name(K k) { switch (k) { %s } return \"?\"; } }\n" % " ".join('case K::%s: return "%s";' % (n, n) for n in names)
    if mapping: t += "template <> constexpr auto lexy::token_kind_map_for<%s::K> = lexy::token_kind_map%s;\n" % (ns, "".join(".map<%s::K::%s>(%s)" % (ns, n, r.cpp) for r, n in mapping))
    return t

class Tag:
    """an error tag of the grammar, or one of the library"""
    def __init__(self, cpp, msg): self.cpp, self.msg = cpp, msg
def T(n): return Tag("vft::e%d" % n, "custom error %d" % n)
TAGS = "namespace vft {\n" + "".join('struct e%d { static constexpr const char* name() { return "custom error %d"; } };\n' % (i, i) for i in range(10)) + "}\n"

# ---------------------------------------------------------------- rules
else_ = R("else", "dsl::else_")
def opt(r): return R("opt", "dsl::opt(%s)" % r.cpp, r=r)
def if_(r): return R("if", "dsl::if_(%s)" % r.cpp, r=r)
nullopt = R("nullopt", "dsl::nullopt")
def while_(r): return R("while", "dsl::while_(%s)" % r.cpp, r=r)
def while_one(r): return R("whileone", "dsl::while_one(%s)" % r.cpp, r=r)
def do_while(r, c=None):
    return R("dowhile", "dsl::do_while(%s, %s)" % (r.cpp, c.cpp), r=r, c=c)
def loop(r): return R("loop", "dsl::loop(%s)" % r.cpp, r=r)
break_ = R("break", "dsl::break_")
ret = R("ret", "dsl::return_")
def prd(n): return R("prd", "dsl::p<%s>" % n, n=n)
def rec(n): return R("rec", "dsl::recurse<%s>" % n, n=n)
def recb(n): return R("recb", "dsl::recurse_branch<%s>" % n, n=n)
def inline(n): return R("inline", "dsl::inline_<%s>" % n, n=n)
def nowt(r): return R("nowt", "dsl::no_whitespace(%s)" % r.cpp, r=r)
def wsr(r): return R("wsr", "dsl::whitespace(%s)" % r.cpp, r=r)
eof = R("eof", "dsl::eof")
eol = R("eol", "dsl::eol")
newline = R("errtok", "dsl::newline", tag="expected newline", r=lset(lit("\n"), lit("\r\n")))
def _tagged(cpp, tag): return cpp + (".error<%s>" % tag.cpp if tag else "")
def peek(r, tag=None): return R("peek", _tagged("dsl::peek(%s)" % r.cpp, tag), r=r, tag=tag.msg if tag else "peek failure")
def peek_not(r, tag=None): return R("peeknot", _tagged("dsl::peek_not(%s)" % r.cpp, tag), r=r, tag=tag.msg if tag else "unexpected")
def look(ns, es, tag=None):
    n = ns[0].cpp if len(ns) == 1 else "dsl::literal_set(%s)" % ", ".join(x.cpp for x in ns)
    e = es[0].cpp if len(es) == 1 else "dsl::literal_set(%s)" % ", ".join(x.cpp for x in es)
    return R("look", _tagged("dsl::lookahead(%s, %s)" % (n, e), tag), ns=list(ns), es=list(es), tag=tag.msg if tag else "lookahead failure")
pos = R("pos", "dsl::position")
def posr(r): return R("posr", "dsl::position(%s)" % r.cpp, r=r)
def cap(r): return R("cap", "dsl::capture(%s)" % r.cpp, r=r)
def capp(n):
    return R("capp", "dsl::capture(dsl::p<%s>)" % n, r=prd(n))
def _flat(l): return l
def _noid(l):
    """a keyword is reserved as its text"""
    if l.o == "kw": return R("lit", "", u=l.kw["u"], s=l.kw["s"])
    if l.o == "cf": return R("cf", "", l=_noid(l.kw["l"]), f=l.kw["f"])
    return l
def ident(lead, trail, res=()):
    cpp = "dsl::identifier(%s, %s)" % (lead.cpp, trail.cpp) if trail is not lead else "dsl::identifier(%s)" % lead.cpp
    js = []
    for k, ls in res:
        cpp += {"is": ".reserve(%s)", "pre": ".reserve_prefix(%s)", "cont": ".reserve_containing(%s)", "suf": ".reserve_suffix(%s)"}[k] % ", ".join(x.cpp for x in ls)
        js.append({"k": k, "ls": [_noid(l) for l in ls]})
    return R("ident", cpp, l=lead.cls, t=trail.cls, ln=lead.name, res=js)
def sym(table, t=NONE, tag=None):
    """table: name of a C++ symbol table, list of (literal R, int)"""
    name, entries = table
    cpp = "dsl::symbol<%s>" % name
    if t is not NONE: cpp += "(%s)" % (t.cpp if t.o != "idp" else t.cpp.replace(".pattern()", ""))
    return R("sym", _tagged(cpp, tag), tab={"ls": [l for l, _ in entries], "vs": [str(v) for _, v in entries]}, t=t, tag=tag.msg if tag else "unknown symbol")
def dec_digits(n):
    r = []
    while n: r.append(n % 10); n //= 10
    return r
def integer(ctype, maxv, t, radix, deduce=False, tag=None, cp=False):
    """deduce: the base is deduced from the digits rule t"""
    c = digit_cls(radix)
    cpp = "dsl::integer<%s, dsl::%s>(%s)" % (ctype, BASES[radix], t.cpp) if not deduce else "dsl::integer<%s>(%s)" % (ctype, t.cpp)
    return R("int", cpp, t=t, base={"c": c.cls, "n": c.name}, radix=radix_of(radix), max=dec_digits(maxv) if maxv else [], tag=tag.msg if tag else "integer overflow", cp=cp)
def cp_id(n, radix=16):
    return R("int", "dsl::code_point_id<%d, dsl::%s>" % (n, BASES[radix]), t=ndigits(n, radix), base={"c": digit_cls(radix).cls, "n": digit_cls(radix).name}, radix=radix_of(radix), max=dec_digits(0x10ffff), tag="invalid code point", cp=True)
def cu_id(enc, maxv, n, radix=16):
    return R("int", "dsl::code_unit_id<%s, %d, dsl::%s>" % (enc, n, BASES[radix]), t=ndigits(n, radix), base={"c": digit_cls(radix).cls, "n": digit_cls(radix).name}, radix=radix_of(radix), max=dec_digits(maxv), tag="invalid code unit", cp=False)
def bytes_(n, kind="", a=0, b=255, *more):
    """n bytes: any, in a range, in a set, ascii, or with the predicate of the grammar"""
    base = "dsl::byte" if n == 1 else "dsl::bytes<%d>" % n
    rs = [(0, 255)] if not kind else [(a, b)] if kind in ("range", "if") else [(0, 127)] if kind == "ascii" else [(x, x) for x in (a, b) + more]
    cpp = {"": base, "range": "%s.range<%d, %d>()" % (base, a, b), "ascii": base + ".ascii()", "set": "%s.set<%s>()" % (base, ", ".join(map(str, (a, b) + more))), "if": "%s.if_<vf::byte_in<%d, %d>>()" % (base, a, b)}[kind]
    return R("byt", cpp, n=n, c=S(*rs), nm={"": "byte", "range": "byte.range", "ascii": "byte.ASCII", "set": "byte.set", "if": "byte in"}[kind], any=not kind)
def padding(n, v=0): return R("pad", "dsl::padding_bytes<%d, %d>" % (n, v) if v else "dsl::padding_bytes<%d>" % n, t=bytes_(n), v=v, s="\\%02X" % v)
def bint(n, endian="", t=None):
    r = t or bytes_(n)
    return R("bint", "dsl::%sbint%d" % (endian + "_" if endian else "", 8 * n) + ("(%s)" % r.cpp if t else ""), n=n, big=endian == "big", t=r)
def bits(*parts):
    """parts: "0", "1", "_", ("n", value), ("a", count)"""
    cpp, pat = [], []
    for x in parts:
        if x in ("0", "1"): cpp.append("dsl::bit::_" + x); pat.append(int(x))
        elif x == "_": cpp.append("dsl::bit::_"); pat.append(2)
        elif x[0] == "n": cpp.append("dsl::bit::nibble<%d>" % x[1]); pat += [x[1] >> 3 & 1, x[1] >> 2 & 1, x[1] >> 1 & 1, x[1] & 1]
        else: cpp.append("dsl::bit::any<%d>" % x[1]); pat += [2] * x[1]
    return R("bits", "dsl::bits(%s)" % ", ".join(cpp), pat=pat)
def op(l, tag, val):
    """val: rendering of the tag; '@' if it holds its position"""
    return R("op", "dsl::op<%s>(%s)" % (tag, l.cpp), r=l, val=val)
plus_sign = R("if", "dsl::plus_sign", r=op(lit("+"), "lexy::plus_sign", "+1"))
minus_sign = R("if", "dsl::minus_sign", r=op(lit("-"), "lexy::minus_sign", "-1"))
sign = R("if", "dsl::sign", r=R("alt", "", rs=[op(lit("+"), "lexy::plus_sign", "+1"), op(lit("-"), "lexy::minus_sign", "-1")]))
def err(tag, r=NONE):
    return R("err", "dsl::error<%s>" % tag.cpp + ("(%s)" % r.cpp if r is not NONE else ""), tag=tag.msg, r=r)
def must(r, tag, er=NONE):
    return R("must", "dsl::must(%s).error<%s>" % (r.cpp, tag.cpp) + ("(%s)" % er.cpp if er is not NONE else ""), r=r, tag=tag.msg, er=er)
def try_(r, rec=NONE):
    return R("try", "dsl::try_(%s%s)" % (r.cpp, "" if rec is NONE else ", " + rec.cpp), r=r, rec=rec)
def find(*ns, lim=()):
    return R("find", "dsl::find(%s)" % ", ".join(n.cpp for n in ns) + (".limit(%s)" % ", ".join(l.cpp for l in lim) if lim else ""), ns=list(ns), lim=list(lim))
def reco(*rs, lim=()):
    return R("reco", "dsl::recover(%s)" % ", ".join(n.cpp for n in rs) + (".limit(%s)" % ", ".join(l.cpp for l in lim) if lim else ""), rs=list(rs), lim=list(lim))
class Sep:
    def __init__(self, k, r, tag=None):
        self.cpp = {"sep": "dsl::sep(%s)", "tsep": "dsl::trailing_sep(%s)", "ign": "dsl::ignore_trailing_sep(%s)"}[k] % r.cpp
        if tag: self.cpp += ".trailing_error<%s>" % tag.cpp
        self.j = R("sep", self.cpp, k=k, r=r, tag=tag.msg if tag else "unexpected trailing separator")
def sep(r, tag=None): return Sep("sep", r, tag)
def tsep(r): return Sep("tsep", r)
def isep(r): return Sep("ign", r)
def _s(s): return s.j if s else NONE
def list_(r, s=None): return R("list", "dsl::list(%s%s)" % (r.cpp, ", " + s.cpp if s else ""), r=r, sep=_s(s))
def opt_list(r, s=None): # opt(list)
    l = list_(r, s)
    return R("opt", "dsl::opt(%s)" % l.cpp, r=l)
def _term(t, lim): return "dsl::terminator(%s)" % t.cpp + (".limit(%s)" % ", ".join(l.cpp for l in lim) if lim else "")
def ttry(t, r, lim=()): return R("ttry", "%s.try_(%s)" % (_term(t, lim), r.cpp), t=t, r=r, lim=list(lim), sep=NONE)
def topt(t, r, lim=()): return R("topt", "%s.opt(%s)" % (_term(t, lim), r.cpp), t=t, r=r, lim=list(lim), sep=NONE)
def tlist(t, r, s=None, lim=()): return R("tlist", "%s.list(%s%s)" % (_term(t, lim), r.cpp, ", " + s.cpp if s else ""), t=t, r=r, sep=_s(s), lim=list(lim))
def toptlist(t, r, s=None, lim=()): return R("toptlist", "%s.opt_list(%s%s)" % (_term(t, lim), r.cpp, ", " + s.cpp if s else ""), t=t, r=r, sep=_s(s), lim=list(lim))
def tseq(t, r, lim=()): # terminator(rule): rule + terminator, no recovery
    return R("seq", "%s(%s)" % (_term(t, lim), r.cpp), rs=[r, t])
def _brk(o, c, lim, what, args):
    b = "dsl::brackets(%s, %s)" % (o.cpp, c.cpp) + (".limit(%s)" % ", ".join(l.cpp for l in lim) if lim else "")
    return b + what + "(%s)" % args
def b_plain(o, c, r, lim=()): return R("br", _brk(o, c, lim, "", r.cpp), c=o, rs=[r, c])
def b_try(o, c, r, lim=()): return R("br", _brk(o, c, lim, ".try_", r.cpp), c=o, rs=[ttry(c, r, lim)])
def b_opt(o, c, r, lim=()): return R("br", _brk(o, c, lim, ".opt", r.cpp), c=o, rs=[topt(c, r, lim)])
def b_list(o, c, r, s=None, lim=()): return R("br", _brk(o, c, lim, ".list", r.cpp + (", " + s.cpp if s else "")), c=o, rs=[tlist(c, r, s, lim)])
def b_opt_list(o, c, r, s=None, lim=()): return R("br", _brk(o, c, lim, ".opt_list", r.cpp + (", " + s.cpp if s else "")), c=o, rs=[toptlist(c, r, s, lim)])
def times(n, r, s=None):
    return R("times", "dsl::times<%d>(%s%s)" % (n, r.cpp, ", " + s.cpp if s else ""), n=n, r=r, sep=_s(s))
class Esc:
    def __init__(self, tok, rs): 
        self.cpp = "dsl::escape(%s)" % tok.cpp + "".join(c for c, _ in rs)
        self.j = {"t": tok, "rs": [r for _, r in rs]}
def esc_rule(r): return (".rule(%s)" % r.cpp, r)
def esc_cap(t): return (".capture(%s)" % t.cpp, cap(t))
def esc_sym(table, t=NONE):
    s = sym(table, t)
    return (".symbol<%s>(%s)" % (table[0], t.cpp if t is not NONE else ""), s)
def delim(open_, close, cc, escs=(), lim=None, ltag=None, cctag=None, cpphead=None):
    cppcc = cc.cpp
    ccj = cc
    if cctag: cppcc = "(%s).error<%s>" % (cc.cpp, cctag.cpp); ccj = R("errtok", cppcc, r=cc, tag=cctag.msg)
    head = cpphead or ("dsl::delimited(%s, %s)" % (open_.cpp, close.cpp))
    if lim is not None: head += ".limit%s(%s)" % ("<%s>" % ltag.cpp if ltag else "", lim.cpp)
    cpp = head + "(%s)" % ", ".join([cppcc] + [e.cpp for e in escs])
    return R("delim", cpp, open=open_, close=close, cc=ccj, lim=lim if lim is not None else NONE,
             ltag=ltag.msg if ltag else "missing delimiter", escs=[e.j for e in escs])
def flag_new(n, v=False): return R("cvnew", "%s.create%s()" % (n, "<true>" if v else ""), id=n, x=int(v))
def flag_set(n): return R("cvset", "%s.set()" % n, id=n, x=1)
def flag_reset(n): return R("cvset", "%s.reset()" % n, id=n, x=0)
def flag_toggle(n): return R("cvtoggle", "%s.toggle()" % n, id=n)
def flag_is(n, v=True):
    return R("cvis", "%s.is_%s()" % (n, "set" if v else "reset"), id=n, x=int(v))
def flag_val(n): return R("cvval", "%s.value()" % n, id=n, flag=True)
def ctr_new(n, v=0): return R("cvnew", "%s.create<%d>()" % (n, v), id=n, x=v)
def ctr_inc(n): return R("cvadd", "%s.inc()" % n, id=n, x=1)
def ctr_dec(n): return R("cvadd", "%s.dec()" % n, id=n, x=-1)
def ctr_push(n, r): return R("cvspan", "%s.push(%s)" % (n, r.cpp), id=n, x=1, r=r)
def ctr_pop(n, r): return R("cvspan", "%s.pop(%s)" % (n, r.cpp), id=n, x=-1, r=r)
def ctr_is(n, v): return R("cvis", "%s.is<%d>()" % (n, v), id=n, x=v)
def ctr_zero(n): return R("cvis", "%s.is_zero()" % n, id=n, x=0)
def ctr_val(n): return R("cvval", "%s.value()" % n, id=n, flag=False)
def ctr_eq(*ns): return R("cveq", "dsl::equal_counts(%s)" % ", ".join(ns), ids=list(ns))
def cid_decl(n, ident): return "struct tag_%s {}; static constexpr auto %s = dsl::context_identifier<tag_%s>(%s);\n" % (n, n, n, ident.cpp)
def cid_new(n): return R("cvnew", "%s.create()" % n, id=n, x=[])
def cid_cap(n, ident): return R("cidcap", "%s.capture()" % n, id=n, r=ident)
def cid_rem(n, ident, tag=None): return R("cidrem", _tagged("%s.rematch()" % n, tag), id=n, r=ident, tag=tag.msg if tag else "different identifier")
def flag_decl(*ns): return "".join("struct tag_%s {}; static constexpr auto %s = dsl::context_flag<tag_%s>;\n" % (n, n, n) for n in ns)
def ctr_decl(*ns): return "".join("struct tag_%s {}; static constexpr auto %s = dsl::context_counter<tag_%s>;\n" % (n, n, n) for n in ns)
def dbg(s): return R("dbg", "LEXY_DEBUG(%s)" % cstr(s), s=s)

# ---------------------------------------------------------------- grammars
class P:
    def __init__(self, name, rule, ws=None, tok=False, transp=False, val="", maxdep=None, extra="", itype="long long", agg=None, fields=(), via=">>"):
        self.agg, self.fields, self.via = agg, list(fields), via
        self.name, self.rule, self.ws, self.tok, self.transp, self.val = name, rule, ws, tok, transp, val
        self.maxdep, self.extra, self.itype = maxdep, extra, itype

def vopt(u=False, c=False, s=False, sp=False, d=32, w=0, tab=0): return dict(u=u, c=c, s=s, sp=sp, d=d, w=w, tab=tab)
def opt_cpp(o):
    fl = (1 if o["u"] else 0) and "lexy::visualize_use_unicode" or "lexy::visualize_default"
    for k, n in (("c", "color"), ("s", "symbols")):
        if o[k]: fl += " | lexy::visualize_use_" + n
    if o["sp"]: fl += " | lexy::visualize_space"
    return "lexy::visualization_options{%s, %d, %d, %d}" % (fl, o["d"], o["w"], o["tab"])

class G:
    """prods: in order of definition, the last one is the root"""
    def __init__(self, name, prods, alpha="", n=0, enc="utf8", extra=(), rnd=0, rlen=12, pre="", fold=None, kinds=None, maxdep=None, std="c++17", syms=None, defs=None, topts=(), top="", view="", after="", solo=None):
        self.solo = solo      # PSolo: the calls to a scanner of its own; its control production is the last one
        self.after = after
        self.view = view
        self.top = top
        self.topts = list(topts)
        self.name, self.prods, self.alpha, self.n, self.enc = name, prods, alpha, n, enc
        self.extra, self.rnd, self.rlen, self.pre, self.fold = list(extra), rnd, rlen, pre, fold or {}
        self.kinds, self.std, self.syms = kinds, std, syms
        self.maxdep = maxdep
        self.root = prods[-1].name if prods else ""

    def json(self):
        ps = {}
        for p in self.prods:
            ps[p.name] = {"rule": p.rule.json(self.enc), "ws": (p.ws or NONE).json(self.enc), "tok": p.tok,
                          "transp": p.transp, "val": p.val}
            if p.agg: ps[p.name]["fields"] = p.fields
        if self.solo is not None:
            self.root, self.view = SOLO, "scan"
            ps[SOLO] = {"rule": self.solo.rule.json(self.enc), "ws": (self.solo.ws or NONE).json(self.enc), "tok": False, "transp": False, "val": "fwd"}
        return {"name": self.name, "enc": self.enc, "prods": ps, "root": self.root, "maxdep": self.maxdep or 1024,
                "fold": self.fold or {"-1": 0}, "view": self.view, "topts": self.topts, "lits": self.lits(ps) if self.topts else {"": []}, "alpha": [ord(ch) for ch in self.alpha]}
    def lits(self, ps):
        """shown form of a literal -> its code units"""
        out = {"": []}
        def walk(x):
            if isinstance(x, dict):
                if "u" in x and "s" in x: out[x["s"]] = x["u"]
                for v in x.values(): walk(v)
            elif isinstance(x, list):
                for v in x: walk(v)
        walk(ps)
        return out

    def cpp(self):
        E = {"utf8": "lexy::utf8_char_encoding", "utf16": "lexy::utf16_encoding", "utf32": "lexy::utf32_encoding",
             "ascii": "lexy::ascii_encoding", "default": "lexy::default_encoding", "byte": "lexy::byte_encoding"}[self.enc]
        out = self.top + "namespace %s {\n" % self.name
        out += self.pre + "\n"
        for p in self.prods: out += "struct %s;\n" % p.name
        for p in self.prods:
            bases = [b for b, c in (("lexy::token_production", p.tok), ("lexy::transparent_production", p.transp)) if c]
            if isinstance(p, PS): bases.insert(0, "lexy::scan_production<%s>" % ("void" if p.val == "void" else "vf::Val"))
            if isinstance(p, PE):
                if p.of: bases.insert(0, "lexy::subexpression_production<%s, %s::%s>" % (p.of, p.of, p.sub))
                else: bases.insert(0, "lexy::expression_production")
            out += "struct %s%s {\n" % (p.name, " : " + ", ".join(bases) if bases else "")
            out += "  VF_NAME(\"%s\")\n" % p.name
            if p is self.prods[-1] and self.maxdep: out += "  static constexpr auto max_recursion_depth = %d;\n" % self.maxdep
            if p.ws: out += "  static constexpr auto whitespace = %s;\n" % p.ws.cpp
            out += p.extra
            if isinstance(p, PS): out += p.body()
            if isinstance(p, PE):
                if not p.of: out += p.body + "  static constexpr auto value = vf::V<%s>{};\n" % p.name
                out += "};\n"
                continue
            out += "  static constexpr auto rule = %s;\n" % p.rule.cpp
            v = {"fwd": "lexy::forward<vf::Val>", "void": "lexy::noop", "int": "lexy::as_integer<%s>" % p.itype, "agg": "lexy::as_aggregate<%s> %s vf::AggV<%s, %s>{}" % (p.agg, p.via, p.name, p.agg)}.get(p.val, "vf::V<%s>{}" % p.name)
            out += "  static constexpr auto value = %s;\n};\n" % v
        if self.solo is not None: out += self.solo.solo(E)
        if self.after: out += "}\n" + self.after + "namespace %s {\n" % self.name
        if self.topts:
            out += "static const std::vector<lexy::visualization_options> topts = {%s};\n" % ", ".join(opt_cpp(o) for o in self.topts)
            out += "std::vector<std::string> go(const vf::units& in) { return vf::run_%s<%s, %s, %s>(in, topts); }\n" % ("report" if self.view == "report" else "buffer", self.root, self.kinds or "void", E)
            return out + "static vf::reg r_(\"%s\", &go);\n}\n" % self.name
        if self.solo is not None: return out + "static vf::reg r_(\"%s\", &go);\n}\n" % self.name
        if self.view: return out + "static vf::reg r_(\"%s\", &vf::run_%s<%s, %s, %s>);\n}\n" % (self.name, self.view, self.root, self.kinds or "void", E)
        out += "static vf::reg r_(\"%s\", &vf::run_plain<%s, %s, %s>);\n}\n" % (self.name, self.root, self.kinds or "void", E)
        return out

    def inputs(self, seed, tier):
        """list of code unit lists"""
        syms = [enc_units(c, self.enc) for c in self.alpha]
        if self.syms: syms += [list(x) for x in self.syms]
        res, seen = [], set()
        def add(us):
            t = tuple(us)
            if t not in seen:
                seen.add(t); res.append(list(t))
        n = self.n + (1 if tier == "thorough" else 0)
        for l in range(n + 1):
            for w in itertools.product(syms, repeat=l):
                add(sum(w, []))
        for e in self.extra:
            add(enc_units(e, self.enc) if isinstance(e, str) else e)
        rng = random.Random("%s/%s" % (seed, self.name))
        for _ in range(self.rnd * (8 if tier == "thorough" else 1)):
            l = rng.randint(n + 1, max(n + 1, self.rlen))
            add(sum((rng.choice(syms) for _ in range(l)), []))
        # mutations of the explicit inputs
        if self.extra and syms:
            for _ in range(self.rnd * (8 if tier == "thorough" else 1)):
                e = rng.choice(self.extra)
                w = list(enc_units(e, self.enc) if isinstance(e, str) else e)
                for _ in range(rng.randint(1, 2)):
                    k = rng.randint(0, 2)
                    if k == 0 and w: del w[rng.randrange(len(w))]
                    elif k == 1:
                        i = rng.randint(0, len(w)); w[i:i] = rng.choice(syms)
                    elif w: i = rng.randrange(len(w)); w[i:i+1] = rng.choice(syms)
                add(w)
        return res
def lit_cls(ch):
    """a single ASCII character as class"""
    return Cls("dsl::lit_c<'\\%03o'>" % ord(ch), S((ord(ch), ord(ch))), "literal-char", "literal", ascii=True)
def lit_cp(s): return R("lit", "dsl::lit_cp<%s>" % ", ".join("0x%X" % ord(c) for c in s), u=Txt(s), s=vis(s))
def lset_op(*ls): # built with operator/
    return R("lset", "(" + " / ".join(("dsl::literal_set(%s)" % l.cpp) if i == 0 else l.cpp for i, l in enumerate(ls)) + ")", ls=list(ls))
def lset_macro(*ls): return R("lset", "LEXY_LITERAL_SET(%s)" % ", ".join(l.cpp for l in ls), ls=list(ls))
def near(*words, alts="x"):
    """the words and everything close to them: every prefix, every single replaced character, and with something after"""
    out = []
    for w in words:
        for k in range(len(w) + 1): out.append(w[:k])
        for a in alts:
            for k in range(len(w)): out += [w[:k] + a + w[k+1:], w[:k] + a]
            out += [w + a, w + w, a + w, w + a + w]
    return out

# ---------------------------------------------------------------- expressions
class O:
    """an operation: kind, name, operators, operand (O, "atom" or a list of operands = groups)"""
    def __init__(self, kind, name, ops, operand="atom"):
        self.kind, self.name, self.operand = kind, name, operand
        self.alts = ops if isinstance(ops, list) else [ops]
def oper(l, tag="", val="", rest=None, cpp=None):
    """an operator: literal, tag type and its rendering ("@" if it holds the position), rest"""
    body = l.cpp if rest is None else "%s >> %s" % (l.cpp, rest.cpp)
    rs = [] if rest is None else (rest.kw["rs"] if rest.o == "seq" else [rest])
    return {"cpp": cpp or "dsl::op%s(%s)" % ("<%s>" % tag if tag else "", body), "l": l, "val": val, "rs": rs}
OPBASE = {"left": "infix_op_left", "right": "infix_op_right", "list": "infix_op_list", "single": "infix_op_single", "prefix": "prefix_op", "postfix": "postfix_op"}

def ex_powers(root):
    """operation name -> (group, lhs, rhs)"""
    def bp(k, l): return {"right": (2*l+1, 2*l), "prefix": (0, 2*l+1), "postfix": (2*l+1, 0)}.get(k, (2*l, 2*l+1))
    def find(name, x, group, level):
        # the operation at or below x; x is an operand seen at this level: (group reached, powers or None)
        if x == "atom": return group, None
        if isinstance(x, list):
            res = None
            for y in x:
                group, res = find(name, y, group + 1, level)
                if res: break
            return group, res
        level += 1
        if x.name == name: return group, bp(x.kind, level)
        return find(name, x.operand, group, level)
    out = {}
    def walk(x):
        if x == "atom": return
        for y in (x if isinstance(x, list) else [x.operand]): walk(y)
        if not isinstance(x, list) and x.name not in out:
            g, p = find(x.name, root, 0, 0)
            out[x.name] = (g,) + p
    walk(root)
    return out
def ex_list(root):
    """operations in the order in which their operators are listed, with the binding power of their level"""
    def bp(k, l): return {"right": (2*l+1, 2*l), "prefix": (0, 2*l+1), "postfix": (2*l+1, 0)}.get(k, (2*l, 2*l+1))
    def get(x, level):
        if x == "atom": return []
        if isinstance(x, list): return sum((get(y, level) for y in x), [])
        return get(x.operand, level + 1) + [(x, bp(x.kind, level))]
    return get(root, 1)

NEST, CHAIN, GROUP = "maximum operator nesting level exceeded", "operator cannot be chained", "operator cannot be mixed with previous operators"
class PE(P):
    """expression production"""
    def __init__(self, name, atom, root, max=256, setmax=True, sub=None, of=None, tags=None, **kw):
        self.root_op, self.max, self.sub, self.of = root, max, sub, of
        pw = ex_powers(root)
        top = root if sub is None else next(o for o, _ in ex_list(root) if o.name == sub)
        if isinstance(top, O):
            g, l, r = pw[top.name]
            mn = r if top.kind == "prefix" else l
        else: mn = 0
        ops = []
        for o, (l, r) in ex_list(root):
            g = pw[o.name][0]
            ops.append({"k": o.kind, "nm": o.name, "g": g, "lhs": l, "rhs": r, "alts": [{"l": a["l"], "val": a["val"], "rs": a["rs"]} for a in o.alts]})
        t = {"nest": NEST, "chain": CHAIN, "group": GROUP}
        ext = ""
        for k, v in (tags or {}).items():
            t[k] = v.msg
            ext += "  using operator_%s_error = %s;\n" % ({"nest": "nesting"}.get(k, k), v.cpp)
        rule = R("expr", "", n=of or name, ops=ops, atom=atom, max=max, min=mn, tags=t)
        body = ext
        if setmax: body += "  static constexpr auto max_operator_nesting = %d;\n" % max
        body += "  static constexpr auto atom = %s;\n" % atom.cpp
        done = set()
        def cppop(x):
            if x == "atom": return "dsl::atom"
            if isinstance(x, list): return "dsl::groups<%s>" % ", ".join(cppop(y) for y in x)
            return x.name
        def emit(x):
            nonlocal body
            if x == "atom": return
            for y in (x if isinstance(x, list) else [x.operand]): emit(y)
            if isinstance(x, O) and x.name not in done:
                done.add(x.name)
                body += "  struct %s : dsl::%s {\n    VF_NAME(\"%s\")\n    static constexpr auto op = %s;\n    using operand = %s;\n  };\n" % (x.name, OPBASE[x.kind], x.name, " / ".join(a["cpp"] for a in x.alts), cppop(x.operand))
        emit(root)
        body += "  using operation = %s;\n" % cppop(root)
        self.body = body
        super().__init__(name, rule, val="expr", **kw)

# ---------------------------------------------------------------- combinations, flags, members, repetition
def comb(*bs, partial=False, dup=None, miss=None):
    cpp = "dsl::%s(%s)" % ("partial_combination" if partial else "combination", ", ".join(b.cpp for b in bs))
    if dup: cpp += ".duplicate_error<%s>" % dup.cpp
    if miss: cpp += ".missing_error<%s>" % miss.cpp
    return R("comb", cpp, rs=list(bs), partial=partial, dup=dup.msg if dup else "combination duplicate", miss=miss.msg if miss else "exhausted choice")
def mem(name, r, S=None): return R("mem", ("(dsl::member<&%s::%s> = %s)" % (S, name, r.cpp)) if S else "(LEXY_MEM(%s) = %s)" % (name, r.cpp), m=name, r=r)
def agg_decl(S, fields):
    return "struct %s { %s\n  std::string show() const { return std::string(\"{\") + %s + \"}\"; } };\n" % (S, " ".join("vf::Any %s;" % f for f in fields), " + \",\" + ".join('"%s=" + %s.s' % (f, f) for f in fields))
def flag(r, t=None, f=None):
    if t is None: return R("flag", "dsl::flag(%s)" % r.cpp, r=r, t="true", f="false")
    return R("flag", "dsl::flag<%s>(%s)" % (t if f is None else "%s, %s" % (t, f), r.cpp), r=r, t=str(t), f="0" if f is None else str(f))
def flag_table(name, entries, enum="F"):
    """enum and its table"""
    d = "enum class %s : unsigned { none = 0, %s };\ninline std::string fmt(%s f) { return std::to_string(unsigned(f)); }\n" % (enum, ", ".join("f%d = %d" % (i, v) for i, (_, v) in enumerate(entries)), enum)
    d += "static constexpr auto %s = lexy::symbol_table<%s>%s;\n" % (name, enum, "".join(".map<LEXY_SYMBOL(%s)>(%s::f%d)" % (cstr(k), enum, i) for i, (k, _) in enumerate(entries)))
    return d
def flags(name, entries, t=None, default=None, dup=None, enum="F"):
    tab = [(lit(k), v) for k, v in entries]
    s = sym((name, tab), t if t is not None else NONE)
    cpp = "dsl::flags%s(%s)" % ("" if default is None else "<%s(%d)>" % (enum, default), s.cpp)
    if dup: cpp += ".error<%s>" % dup.cpp
    return R("flags", cpp, r=s, fv=[v for _, v in entries], **{"def": default or 0}, dup=dup.msg if dup else "duplicate flag")
def pas(r, T="vf::As", front=False): return R("pas", "dsl::parse_as<%s>(%s)" % (T, r.cpp), r=r, T="num" if T == "std::size_t" else T, front=front)
def repeat(cnt, r, mode="", sep=NONE, branch=False):
    """branch: the count is a branch"""
    pc = R("pas", "", r=cnt, T="num", front=True)
    loop = R("rep", "", r=r, sep=sep.j if isinstance(sep, Sep) else sep, mode=mode)
    m = {"": "", "list": ".list", "cap": ".capture"}[mode]
    cpp = "dsl::repeat(%s)%s(%s%s)" % (cnt.cpp, m, r.cpp, "" if sep is NONE else ", " + sep.cpp)
    if branch: return R("br", cpp, c=pc, rs=[loop])
    return R("seq", cpp, rs=[pc, loop])
def effect(fn, val): return R("eff", "dsl::effect<%s>" % fn, val=val)
def subg(n): return R("subg", "dsl::subgrammar<%s, vf::Val>" % n, n=n)

# ---------------------------------------------------------------- scanners
SOLO = "scanner control production"
class Sc:
    """a call to a scanner: its JSON form and its statement"""
    def __init__(self, o, cpp, **kw): self.r, self.cpp = R(o, "", **kw), cpp
def _blk(p): return "{ " + " ".join(x.cpp for x in p) + " }"
def _js(p): return [x.r for x in p]
def _typed(r, T):
    if T == "void": return r
    if T in ("vf::As", "std::size_t"): return R("pas", "", r=r, T="num" if T == "std::size_t" else T, front=False)
    raise ValueError(T)
def s_parse(r, T="void", form=0):
    if T == "void" and form == 0: return Sc("scp", 'sc.parse(%s); tr.op(sc, "p");' % r.cpp, r=r, quiet=True)
    if form == 0: c = "auto r = sc.template parse<%s>(%s);" % (T, r.cpp)
    else: c = "lexy::scan_result<%s> r; sc.parse(r, %s);" % (T, r.cpp)
    return Sc("scp", '{ %s tr.op(sc, "p", r); }' % c, r=_typed(r, T), quiet=False)
def s_prod(n, form=0):
    c = "auto r = sc.parse(%s{});" % n if form == 0 else "auto r = sc.template parse<%s>();" % n
    return Sc("scp", '{ %s tr.op(sc, "p", r); }' % c, r=prd(n), quiet=False)
def s_cap(r): return Sc("scp", '{ auto r = sc.capture(%s); tr.op(sc, "p", r); }' % r.cpp, r=cap(r), quiet=False)
def s_capp(n): return Sc("scp", '{ auto r = sc.capture(dsl::p<%s>); tr.op(sc, "p", r); }' % n, r=capp(n), quiet=False)
def s_int(ctype, maxv, t, radix, deduce=False):
    return Sc("scp", '{ auto r = sc.template integer<%s%s>(%s); tr.op(sc, "p", r); }' % (ctype, "" if deduce else ", dsl::" + BASES[radix], t.cpp), r=integer(ctype, maxv, t, radix), quiet=False)
def s_branch(r, yes=(), no=(), T="void"):
    if T == "void": return Sc("scb", 'if (sc.branch(%s)) { tr.op(sc, "b"); %s } else { tr.op(sc, "b-"); %s }' % (r.cpp, _blk(yes), _blk(no)), r=r, quiet=True, yes=_js(yes), no=_js(no))
    if T == "prod": return Sc("scb", '{ lexy::scan_result<vf::Val> r; if (sc.branch(r, %s{})) { tr.op(sc, "b", r); %s } else { tr.op(sc, "b-"); %s } }' % (r.kw["n"], _blk(yes), _blk(no)), r=r, quiet=False, yes=_js(yes), no=_js(no))
    return Sc("scb", '{ lexy::scan_result<%s> r; if (sc.branch(r, %s)) { tr.op(sc, "b", r); %s } else { tr.op(sc, "b-"); %s } }' % (T, r.cpp, _blk(yes), _blk(no)), r=_typed(r, T), quiet=False, yes=_js(yes), no=_js(no))
def s_while(r, body=()): return Sc("scw", 'while (sc.branch(%s)) { tr.op(sc, "w"); %s }' % (r.cpp, _blk(body)), r=r, body=_js(body))
def s_peek(r, yes=(), no=()): return Sc("scb", 'if (sc.peek(%s)) { tr.op(sc, "b"); %s } else { tr.op(sc, "b-"); %s }' % (r.cpp, _blk(yes), _blk(no)), r=peek(r), quiet=True, yes=_js(yes), no=_js(no))
def s_discard(t): return Sc("scd", 'tr.op(sc, sc.discard(%s) ? "d1" : "d0");' % t.cpp, t=t)
def s_until(r, t): return Sc("scu", 'while (!sc.is_at_eof() && !sc.peek(%s) && sc.discard(%s)) {} tr.op(sc, "u");' % (r.cpp, t.cpp), r=peek(r), t=t)
def s_error(tag, fatal=False, mark=False, msg=False):
    t = '"%s"' % tag.msg if msg else tag.cpp + "{}"
    return Sc("sce", 'sc.%serror(%s, %ssc.position()); tr.op(sc, "e");' % ("fatal_" if fatal else "", t, "mark, " if mark else ""), tag=tag.msg, fatal=fatal, mark=mark)
s_mark = Sc("scmark", "mark = sc.position();")
def s_recover(body, fin=True):
    return Sc("scr", 'if (!sc) { auto g = sc.error_recovery(); tr.op(sc, "r"); %s LEXY_MOV(g).%s(); tr.op(sc, "R"); }' % (_blk(body), "finish" if fin else "cancel"), body=_js(body), fin=fin)
def s_if(yes=(), no=()): return Sc("scif", "if (sc) %s else %s" % (_blk(yes), _blk(no)), yes=_js(yes), no=_js(no))
def s_eof(yes=(), no=()): return Sc("sceof", "if (sc.is_at_eof()) %s else %s" % (_blk(yes), _blk(no)), yes=_js(yes), no=_js(no))
def s_rem(n): return Sc("screm", 'tr.op(sc, lexy::match<%s>(sc.remaining_input()) ? "m1" : "m0");' % n, r=prd(n))
def scan(prog, mode="state", void=False):
    return R("scan", "dsl::scan", prog=_js(prog), mode=mode, void=void)
class PS(P):
    """a production parsed by calls to a scanner; rule: where the scanner stands (a function of the scan rule)"""
    def __init__(self, name, prog, mode="state", void=False, rule=None, **kw):
        self.prog, self.mode = prog, mode
        s = scan(prog, mode, void)
        self.own = rule
        super().__init__(name, rule(s) if rule else s, val="void" if void else kw.pop("val", "fwd"), **kw)
    def body(self):
        v = self.val == "void"
        ret = {"state": "if (!sc) return lexy::scan_failed; ", "always": "", "never": "return lexy::scan_failed; "}[self.mode]
        good = "return scan_result(true);" if v else "return vf::Val{tr.text()};"
        return ("  template <typename Scanner, typename... Args> static typename lexy::scan_production<%s>::scan_result scan(Scanner& sc, const Args&... args) {\n    vf::Tr tr; auto mark = sc.position(); tr.begin(sc, args...); (void)mark;\n    %s\n    %s%s\n  }\n"
                % ("void" if v else "vf::Val", "\n    ".join(x.cpp for x in self.prog), ret, good))
class PSolo:
    """calls to lexy::scan(); control: whitespace of the control production"""
    def __init__(self, prog, ws=None, control=""):
        self.prog, self.ws, self.control = prog, ws, control
        self.rule = scan(prog, "solo")
    def solo(self, E):
        out = ""
        if self.ws or self.control:
            out += "struct Ctl { %s%s };\n" % ("static constexpr auto whitespace = %s; " % self.ws.cpp if self.ws else "", self.control)
        return out + ("std::vector<std::string> go(const vf::units& in) {\n  vf::buf<%s> b(in); auto sc = lexy::scan%s(b.buffer, vf::Err{}); vf::Tr tr; auto mark = sc.position(); (void)mark;\n  %s\n"
                "  auto r = LEXY_MOV(sc).finish(); return {\"V\" + vf::status(r) + \" \" + vf::join_errs(r.errors()), tr.text()};\n}\n"
                % (E, "<Ctl>" if out else "", "\n  ".join(x.cpp for x in self.prog)))
