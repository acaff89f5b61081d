"""character classes: all code points, runs in vectors"""
import random, os, json
from gram import *
from vlib import *
import callrun
U = lambda n: {"k": "ucd", "n": n}
alt = lambda *cs: {"k": "alt", "cs": list(cs)}
and_ = lambda *cs: {"k": "and", "cs": list(cs)}
not_ = lambda c: {"k": "not", "c": c}
ALLCP = S((0, 0x10FFFF))
def ucls(n, name, c): return Cls("dsl::unicode::" + n, c, "code-point." + name)
A = {n: globals()["A_" + n] for n in "control blank newline other_space space lower upper alpha alpha_u digit alnum word punct graph print char".split()}
CTRL = alt(U("Cc"))
GRAPH = not_(alt(U("Cc"), U("Cs"), U("Cn"), U("whitespace")))
UNI = [
 ucls("control", "control", CTRL), Cls("(-dsl::unicode::control)", not_(CTRL), "code-point.non-control"),
 ucls("blank", "blank", alt(U("Zs"), S((9, 9)))), ucls("newline", "newline", S((10, 10), (13, 13), (0x85, 0x85), (0x2028, 0x2029))),
 ucls("other_space", "other-space", S((11, 12))), ucls("space", "whitespace", U("whitespace")),
 ucls("lower", "lowercase", U("lowercase")), ucls("upper", "uppercase", U("uppercase")), ucls("alpha", "alphabetic", U("alphabetic")),
 ucls("digit", "decimal-number", U("Nd")), ucls("alpha_digit", "alphabetic-decimal", alt(U("alphabetic"), U("Nd"))), ucls("alnum", "alphabetic-decimal", alt(U("alphabetic"), U("Nd"))),
 ucls("word", "word", alt(U("alphabetic"), U("Nd"), U("Mn"), U("Mc"), U("Me"), U("Pc"), U("join_control"))),
 ucls("graph", "graph", GRAPH), ucls("print", "print", and_(alt(GRAPH, U("Zs"), ), not_(U("Cc")))),
 ucls("character", "character", not_(U("Cn"))),
 ucls("xid_start", "XID-start", U("xid_start")), ucls("xid_start_underscore", "XID-start-underscore", alt(U("xid_start"), S((95, 95)))), ucls("xid_continue", "XID-continue", U("xid_continue")),
]
GC = dict(Lu="uppercase-letter", Ll="lowercase-letter", Lt="titlecase-letter", Lm="modifier-letter", Lo="other-letter", Mn="nonspacing-mark", Mc="combining-mark", Me="enclosing-mark",
 Nd="decimal-number", Nl="letter-number", No="other-number", Pc="connector-punctuation", Pd="dash-punctuation", Ps="open-punctuation", Pe="close-punctuation", Pi="initial-quote-punctuation",
 Pf="final-quote-punctuation", Po="other-punctuation", Sm="math-symbol", Sc="currency-symbol", Sk="modifier-symbol", So="other-symbol", Zs="space-separator", Zl="line-separator",
 Zp="paragraph-separator", Cc="control", Cf="format", Cs="surrogate", Co="private-use", Cn="not-assigned")
GROUPS = dict(LC=("cased-letter", "Lu Ll Lt"), L=("letter", "Lu Ll Lt Lm Lo"), M=("mark", "Mn Mc Me"), N=("number", "Nd Nl No"), P=("punctuation", "Pc Pd Ps Pe Pi Pf Po"),
 S=("symbol", "Sm Sc Sk So"), Z=("separator", "Zs Zl Zp"), C=("other", "Cc Cf Cs Co Cn"))
NONCHAR = S((0xFDD0, 0xFDEF), *[(p * 0x10000 + 0xFFFE, p * 0x10000 + 0xFFFF) for p in range(17)])
def cpc(expr, c, name): return Cls("dsl::code_point" + expr, c, "code-point" + name)
CPS = [cpc("", ALLCP, ""), cpc(".ascii()", S((0, 127)), ".ASCII"), cpc(".bmp()", S((0, 0xFFFF)), ".BMP"), cpc(".noncharacter()", NONCHAR, ".non-character"),
 cpc(".range<0x100, 0x17F>()", S((0x100, 0x17F)), ".range"), cpc(".range<'a', 0x10FFFF>()", S((97, 0x10FFFF)), ".range"), cpc(".range<0x7F, 0x80>()", S((0x7F, 0x80)), ".range"),
 cpc(".set<'a', 0xE4, 0x20AC, 0x1F600>()", S((97, 97), (0xE4, 0xE4), (0x20AC, 0x20AC), (0x1F600, 0x1F600)), ".set")]
CPS += [cpc(".general_category<lexy::code_point::%s>()" % k, U(k), "." + n) for k, n in GC.items()]
CPS += [cpc(".general_category<lexy::code_point::%s>()" % k, alt(*map(U, m.split())), "." + n) for k, (n, m) in GROUPS.items()]
def lcp(cp): return Cls("dsl::lit_cp<0x%x>" % cp, S((cp, cp)), None)
def lc(ch): return Cls("dsl::lit_c<'%s'>" % ch, S((ord(ch), ord(ch))), None)
def oneof(s): return Cls("LEXY_ASCII_ONE_OF(%s)" % cstr(s), S(*[(ord(c), ord(c)) for c in s]), s, ascii=True)
def bt(b): return Cls("dsl::lit_b<0x%x>" % b, S((b, b)), None)
def classes(seed):
    l = list(A.values()) + UNI + CPS + [oneof("abc"), oneof("+-*/%^"), oneof("azAZ09_\t~!"), oneof("A"), oneof(" \x7f")]
    lits = [lc("a"), lc("_"), lc("~"), lcp(0xE4), lcp(0x20AC), lcp(0x1F600), lcp(0x10FFFF), lcp(0x7F), lcp(0x80), lcp(0x7FF), lcp(0x800), lcp(0xFFFF), lcp(0x10000)]
    fixed = [A["alpha"] / lc("_"), A["alpha"] / lcp(0xE4) / lc("$"), (A["alpha"] / A["digit"]) / (lc("_") / lc("-")), lc("a") / (A["digit"] / lc("b")),
             A["alpha"] - lc("x"), A["alpha"] - lc("x") - lc("y"), A["print"] - A["punct"] - lcp(0xE4), CPS[0] - A["control"], -A["digit"], -(-A["digit"]), -(A["alpha"] / A["digit"]),
             -lc("a"), -lcp(0x20AC), A["alpha"] & A["lower"], (A["graph"] & A["word"]) & (A["lower"] & CPS[0]), (-A["control"]) & (-A["space"]), CPS[0] & UNI[8], UNI[8] & (-A["alpha"]),
             UNI[8] - A["alpha"], UNI[8] - UNI[7], (UNI[8] - UNI[7]) / A["digit"], -(UNI[8] - UNI[7]), -(UNI[8] & UNI[6]), -UNI[15], (A["digit"] / lcp(0x100)) - lcp(0x100),
             (-lcp(0x20AC)) - lcp(0x1F600), CPS[2] - CPS[1], CPS[3] / CPS[4], -(CPS[3] / CPS[4]),
             Cls("LEXY_CHAR_CLASS(\"my class\", dsl::ascii::alpha / dsl::lit_cp<0xE4>)", alt(A["alpha"].cls, S((0xE4, 0xE4))), "my class"),
             -Cls("LEXY_CHAR_CLASS(\"my class\", dsl::ascii::alpha / dsl::lit_cp<0xE4>)", alt(A["alpha"].cls, S((0xE4, 0xE4))), "my class")]
    fixed[9] = Cls("(-(-dsl::ascii::digit))", A["digit"].cls, "ASCII.digit", ascii=True)
    rng = random.Random("c08" + seed)
    base = list(A.values()) + UNI + CPS[:10] + CPS[-8:] + lits
    def expr(d):
        if d == 0 or rng.random() < .15: return rng.choice(base)
        k = rng.choice("//--&&n")
        a = expr(d - 1)
        if k == "n":
            if a.cpp.startswith("(-") and a.name in ("complement", "code-point.non-control"): return a
            return -a if a is not UNI[0] else UNI[1]
        b = expr(d - 1)
        if a.name is None and b.name is None: b = A["alpha"]
        if k == "/": return a / b
        if k == "-": return a - b if a.name is not None else b - a
        return a & b
    l += fixed
    while len(l) < 150:
        e = expr(3)
        if e.name in ("union", "minus", "intersection", "complement"): l.append(e)
    # classes of bytes, for encodings without code points
    byt = [A["alpha"] / bt(0xE4), A["alpha"] / bt(0x80) / bt(0xFE), -(A["alpha"] / bt(0xE4)), (bt(0x80) / bt(0x81)) - bt(0x81), -bt(0x80), -(bt(0x41) / bt(0xFE)), (A["print"] / bt(0xA0)) & (A["digit"] / bt(0xA0)), -(bt(0x80) / bt(0x81)) & (A["digit"] / bt(0x81) / bt(0x82))]
    return l, byt
ENCS = {"utf8": "lexy::utf8_encoding", "utf8c": "lexy::utf8_char_encoding", "utf16": "lexy::utf16_encoding", "utf32": "lexy::utf32_encoding", "ascii": "lexy::ascii_encoding", "default": "lexy::default_encoding"}
def members(x, ucd):
    """some members and some non-members, at every edge"""
    def edges(x):
        if x["k"] == "set": rs = x["rs"]
        elif x["k"] == "ucd": rs = ucd[x["n"]]
        elif x["k"] == "not": return edges(x["c"])
        elif x["k"] == "minus": return edges(x["a"]) | edges(x["b"])
        else: return set().union(*map(edges, x["cs"]))
        return {y for a, b in rs for y in (a - 1, a, b, b + 1)}
    def isin(x, c):
        if x["k"] == "set": return any(a <= c <= b for a, b in x["rs"])
        if x["k"] == "ucd": return any(a <= c <= b for a, b in ucd[x["n"]])
        if x["k"] == "not": return not isin(x["c"], c)
        if x["k"] == "minus": return isin(x["a"], c) and not isin(x["b"], c)
        return (any if x["k"] == "alt" else all)(isin(y, c) for y in x["cs"])
    return edges(x), isin
def build_suite(seed, tier):
    ucd = json.load(open(os.path.join(SPEC, "data", "unicode.json")))
    l, byt = classes(seed)
    cls = [(c, ["utf8", "utf16", "utf32"] if k % 3 or tier != "quick" else ["utf8c", "utf32"]) for k, c in enumerate(l)]
    cls = [(c, e + (["ascii", "default"] if c.ascii else ["ascii"] if k % 4 == 0 else [])) for k, (c, e) in enumerate(cls)]
    cls += [(c, ["default"]) for c in byt]
    calls, src = [], {}
    rng = random.Random("c08 runs" + seed)
    per = 6
    for b in range(0, len(cls), per):
        t = '#include "cls.hpp"\nnamespace vf {\n'
        for k in range(b, min(b + per, len(cls))):
            c, encs = cls[k]
            t += "struct C%d { static constexpr auto c = %s; };\n" % (k, c.cpp)
            for e in encs:
                t += 'static bool e%d%s = reg("enum.%d.%s", &enumerate<C%d, %s>), n%d%s = reg("name.%d.%s", &class_name<C%d, %s>), r%d%s = reg("run.%d.%s", &runs<C%d, %s>);\n' % (
                    (k, e, k, e, k, ENCS[e]) * 3)
        src["c%d" % b] = t + "}\n"
    for k, (c, encs) in enumerate(cls):
        ed, isin = members(c.cls, ucd)
        for e in encs:
            rec = {"k": k + 1, "e": "utf8" if e == "utf8c" else e}
            calls.append(("enum.%d.%s" % (k, e), dict(rec, f="enum", i=[])))
            if c.name is not None: calls.append(("name.%d.%s" % (k, e), dict(rec, f="name", i=[])))
            top = {"ascii": 127, "default": 255}.get(e, 0x10FFFF)
            cand = [x for x in set(list(range(3, 256)) + rng.sample(sorted(ed), min(len(ed), 60)) + [0x161, 0x6100, 0x6161, 0x10061, 0x1F600]) if 3 <= x <= top and not 0xD800 <= x < 0xE000]
            asc = [x for x in cand if x < 128]
            ins, outs = [x for x in cand if isin(c.cls, x)], [x for x in cand if not isin(c.cls, x)]
            ains, aouts = [x for x in ins if x < 128], [x for x in outs if x < 128]
            for i in range(40 if tier == "quick" else 400):
                fill = ains if (i % 3 or not ins) and ains else ins
                n = rng.randint(0, 20)
                cps = [rng.choice(fill) for _ in range(n)] if fill else []
                if i % 4 == 0 and fill: cps = [rng.choice(fill)] * n
                stop = aouts if i % 2 and aouts else outs
                if stop and i % 5: cps.append(rng.choice(stop))
                cps += [rng.choice(cand if i % 2 else asc) for _ in range(rng.randint(0, 9))]
                us = [u for x in cps for u in enc_units(chr(x), rec["e"])]
                if i % 7 == 6 and e in ("utf8", "utf8c"): us = us[:rng.randint(0, len(us))] + [rng.choice([0x80, 0xC0, 0xF8, 0xED])] + us[rng.randint(0, len(us)):]
                if i % 7 == 6 and e == "utf16": us.insert(rng.randint(0, len(us)), rng.choice([0xD800, 0xDC00, 0xFFFF, 0x61FF, 0xFF61]))
                if i % 7 == 6 and e == "utf32": us.insert(rng.randint(0, len(us)), rng.choice([0xD800, 0x110061, 0x61000061, 0x7FFFFFFF, 0x110000]))
                calls.append((("run.%d.%s " % (k, e)) + " ".join(map(str, us)), dict(rec, f="run", i=us)))
    src["cp"] = CP_SRC
    for k in range(30): calls.append(("gc %d" % k, {"f": "gc", "k": k + 1, "e": "", "i": []}))
    calls.append(("fold", {"f": "fold", "k": 1, "e": "", "i": []}))
    edge = sorted({y for x in list(range(0, 0x120000, 0x1000)) + [0x80, 0xA0, 0xE000, 0xF900, 0xFDD0, 0xFDF0, 0x7FFFFFFF, 0x110000] + [p * 0x10000 + 0xFFFE for p in range(17)] for y in range(x - 2, x + 3)
                   if 0 <= y < 2**31 and (y <= 0x10FFFF or y % 65536 < 0xFFFE)} | set(range(0, 256)))
    for v in edge: calls.append(("pred %d" % v, {"f": "pred", "k": 1, "e": "", "i": [v]}))
    return calls, src, [{"x": c.cls, "n": c.name or ""} for c, _ in cls]
CP_SRC = '''#include "cls.hpp"
namespace vf {
static const lexy::code_point::general_category_t cats[] = {
#define X(a) lexy::code_point::a,
X(Lu) X(Ll) X(Lt) X(Lm) X(Lo) X(Mn) X(Mc) X(Me) X(Nd) X(Nl) X(No) X(Pc) X(Pd) X(Ps) X(Pe) X(Pi) X(Pf) X(Po) X(Sm) X(Sc) X(Sk) X(So) X(Zs) X(Zl) X(Zp) X(Cc) X(Cf) X(Cs) X(Co) X(Cn)
};
static bool a = reg("gc", [](const units& us) -> strs {
    strs r; long lo = -1;
    for (unsigned long cp = 0; cp <= 0x110400; ++cp)
    {
        bool in = cp < 0x110400 && lexy::code_point(char32_t(cp)).general_category() == cats[us[0]];
        if (in && lo < 0) lo = long(cp);
        if (!in && lo >= 0) { r.push_back(std::to_string(lo)); r.push_back(std::to_string(cp - 1)); lo = -1; }
    }
    return r;
});
static bool b = reg("fold", [](const units&) -> strs {
    strs r; unsigned long lo = 0, flo = 0; bool in = false;
    for (unsigned long cp = 0; cp <= 0x110400; ++cp)
    {
        auto f = lexy::simple_case_fold(lexy::code_point(char32_t(cp))).value();
        bool now = cp < 0x110400 && f != cp;
        if (in && (!now || f != flo + (cp - lo))) { r.push_back(std::to_string(lo)); r.push_back(std::to_string(cp - 1)); r.push_back(std::to_string(flo)); in = false; }
        if (now && !in) { in = true; lo = cp; flo = f; }
    }
    return r;
});
static bool c = reg("pred", [](const units& us) -> strs {
    auto cp = lexy::code_point(char32_t(us[0]));
    strs r;
    for (bool x : {cp.is_ascii(), cp.is_bmp(), cp.is_valid(), cp.is_control(), cp.is_surrogate(), cp.is_private_use(), cp.is_noncharacter(), cp.is_scalar()}) r.push_back(x ? "1" : "0");
    return r;
});
}
'''
def post(rec, o): return o if rec["f"] == "name" else [int(x) for x in o]
def suite(run, work, dev=False):
    calls, src, cls = build_suite(run.seed if run else "1", run.tier if run else "quick")
    cp = os.path.join(work, "classes.json"); json.dump(cls, open(cp, "w"))
    return callrun.suite(run, work, "c08", "Classes", calls, src, post=post, opt="-O1", tlcenv={"UCD": os.path.join(SPEC, "data", "unicode.json"), "CLASSES": cp})
