"""code points: encoding, decoding at every position of well-formed and ill-formed text, and the rules that use them"""
import random
from gram import *
from vlib import *
import callrun, gramrun
SRC = '''#include "cls.hpp"
namespace vf {
static unsigned long seen;
struct rec
{
    static constexpr auto name() { return "rec"; }
    constexpr bool operator()(lexy::code_point cp) const { if (!cp.is_ascii()) seen = cp.value(); return true; }
};
struct T { static constexpr auto c = dsl::code_point.if_<rec>(); };
template <typename Enc> strs decode(const units& us)
{
    using C = typename Enc::char_type;
    std::vector<C> v; for (auto u : us) v.push_back(C(u));
    strs r;
    for (std::size_t p = 0; p != v.size(); ++p)
    {
        seen = (unsigned char)(v[p]);
        const void* q = nullptr;
        // with and without sentinel
        auto in = lexy::string_input<Enc>(v.data() + p, v.size() - p);
        auto a = lexy::match<tok_p<T>>(in);
        if (a) q = lexy::parse<tok_p<T>>(in, lexy::noop).value();
        auto cp = seen;
        lexy::buffer<Enc> buf(v.data() + p, v.size() - p);
        auto b = lexy::match<tok_p<T>>(buf);
        const void* q2 = nullptr;
        if (b) q2 = lexy::parse<tok_p<T>>(buf, lexy::noop).value();
        if (a != b || seen != cp || (a && static_cast<const C*>(q) - (v.data() + p) != static_cast<const C*>(q2) - buf.data())) return {"-7"};
        if (!a) { r.push_back("-1"); r.push_back(std::to_string(p)); }
        else { r.push_back(std::to_string(cp)); r.push_back(std::to_string(static_cast<const C*>(q) - v.data())); }
    }
    return r;
}
template <typename Enc> strs encode(const units& us)
{
    using C = typename Enc::char_type;
    strs r;
    std::basic_string<C> all;
    for (auto u : us)
    {
        auto s = lexy::as_string<std::basic_string<C>, Enc>(lexy::code_point(char32_t(u)));
        for (auto c : s) r.push_back(std::to_string(static_cast<unsigned long>(std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, C>>(c))));
    }
    // and through the sink
    auto sink = lexy::as_string<std::basic_string<C>, Enc>.sink();
    for (auto u : us) { sink(lexy::code_point(char32_t(u))); }
    auto s = std::move(sink).finish(); std::size_t k = 0;
    for (auto c : s) if (k >= r.size() || r[k++] != std::to_string(static_cast<unsigned long>(std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, C>>(c)))) return {"-8"};
    return r;
}
#define X(n, e) static bool n##1 = reg("dec." #n, &decode<lexy::e>), n##2 = reg("enc." #n, &encode<lexy::e>);
X(utf8, utf8_encoding) X(utf8c, utf8_char_encoding) X(utf16, utf16_encoding) X(utf32, utf32_encoding) X(ascii, ascii_encoding)
}
'''
def debruijn(alpha, n):
    k = len(alpha); a = [0] * k * n; seq = []
    def db(t, p):
        if t > n:
            if n % p == 0: seq.extend(a[1:p+1])
        else:
            a[t] = a[t-p]; db(t + 1, p)
            for j in range(a[t-p] + 1, k):
                a[t] = j; db(t + 1, t)
    db(1, 1)
    s = [alpha[i] for i in seq]
    return s + s[:n-1]
B8 = [0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFE]
B16 = [0, 0x61, 0x7F, 0x80, 0xFF, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDC01, 0xDFFF, 0xE000, 0xFFFE, 0xFFFF]
B32 = [0, 0x7F, 0x80, 0xFF, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x7FFFFFFF]
def calls(seed, tier):
    rng = random.Random("c09" + seed)
    out = []
    def chunk(f, name, e, l, n=96, over=0):
        for i in range(0, max(1, len(l) - over), n - over):
            c = l[i:i+n]
            out.append(("%s.%s " % (f, name) + " ".join(map(str, c)), {"f": f, "e": e, "i": c}))
    scal = [c for c in range(0x110000) if not 0xD800 <= c < 0xE000]
    edges = {x + d for x in [0, 0x80, 0x800, 0xD800, 0xE000, 0x10000, 0x110000] + [p * 0x10000 for p in range(17)] + [1 << k for k in range(21)] for d in range(-4, 5)}
    step = 29 if tier == "quick" else 1
    pick = sorted({c for c in edges if 0 <= c < 0x110000 and not 0xD800 <= c < 0xE000} | set(scal[::step]))
    for name, e in (("utf8", "utf8"), ("utf8c", "utf8"), ("utf16", "utf16"), ("utf32", "utf32")):
        chunk("enc", name, e, pick)
        chunk("dec", name, e, [u for c in pick for u in enc_units(chr(c), e)], over=3)
    chunk("enc", "ascii", "ascii", list(range(128)))
    chunk("dec", "ascii", "ascii", list(range(255)))
    for name in ("utf8", "utf8c"):
        chunk("dec", name, "utf8", debruijn(B8, 3 if tier == "quick" else 4), over=3)
        chunk("dec", name, "utf8", debruijn(list(range(255)), 2) if name == "utf8" or tier != "quick" else list(range(255)), over=3)
        chunk("dec", name, "utf8", [rng.choice(B8[3:]) for _ in range(20000)], over=3)
        for n in range(1, 4):
            for l in ([0xC2, 0xDF] if n == 1 else []) + [0xE0, 0xE1, 0xED, 0xF0, 0xF1, 0xF4]: chunk("dec", name, "utf8", [l] + [0x90] * (n - 1))
    chunk("dec", "utf16", "utf16", debruijn(B16, 3), over=2); chunk("dec", "utf16", "utf16", list(range(0, 0x10000, 7 if tier == "quick" else 1)))
    for h in (0xD800, 0xDABC, 0xDBFF): chunk("dec", "utf16", "utf16", [h])
    chunk("dec", "utf32", "utf32", debruijn(B32, 2), over=1)
    return out
def suite(run, work, dev=False):
    seed, tier = (run.seed, run.tier) if run else ("1", "quick")
    return callrun.suite(run, work, "c09", "CodePoints", calls(seed, tier), {"cp": SRC}, post=lambda r, o: [int(x) for x in o], opt="-O1")
