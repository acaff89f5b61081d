"""buffers made from raw memory and from inputs"""
import random, itertools
from gram import *
from vlib import *
import callrun
SRC = r'''
#include <lexy/input/argv_input.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/lexeme_input.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <cstring>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace vf {
using units = std::vector<unsigned long>;
using fn    = std::vector<std::string> (*)(const units&);
std::map<std::string, fn>& registry();
using strs = std::vector<std::string>;
inline bool reg(const char* n, fn f) { registry()[n] = f; return true; }
template <typename C> std::string num(C c) { return std::to_string((unsigned long)(std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, std::conditional_t<sizeof(C) == 2, short, int>>>(c))); }
template <typename B> strs show(const B& b)
{
    strs r{std::to_string(b.size())};
    for (std::size_t i = 0; i < b.size(); ++i) r.push_back(num(b.data()[i]));
    for (auto rd = b.reader(); rd.peek() != B::encoding::eof() && r.size() < 10000; rd.bump()) r.push_back(num(typename B::char_type(rd.peek())));
    return r;
}
struct res
{
    void* allocate(std::size_t n, std::size_t) { return std::malloc(n ? n : 1); }
    void deallocate(void* p, std::size_t, std::size_t) noexcept { std::free(p); }
    friend bool operator==(res, res) noexcept { return true; }
};
template <typename E, lexy::encoding_endianness N> strs raw(const units& u)
{
    // the memory need not be aligned, and nothing follows it
    std::unique_ptr<unsigned char[]> m(new unsigned char[u.size() + 1]);
    m[0] = 1;
    for (std::size_t i = 0; i < u.size(); ++i) m[i + 1] = (unsigned char)(u[i]);
    std::unique_ptr<unsigned char[]> al(new unsigned char[u.size()]);
    std::memcpy(al.get(), m.get() + 1, u.size());
    res r;
    auto a = show(lexy::make_buffer_from_raw<E, N>(al.get(), u.size()));
    if (show(lexy::make_buffer_from_raw<E, N>(m.get() + 1, u.size(), &r)) != a) a.push_back("resource");
    return a;
}
template <typename E> strs from(const units& u)
{
    using C = typename E::char_type;
    std::vector<C> v; for (auto x : u) v.push_back(C(x));
    std::list<C> l(v.begin(), v.end());
    res r;
    lexy::string_input<E> s(v.data(), v.size());
    auto a = show(lexy::make_buffer_from_input(s));
    auto also = [&](const char* what, const strs& o) { if (o != a) a.push_back(what); };
    also("string with resource", show(lexy::make_buffer_from_input(s, &r)));
    lexy::range_input<E, typename std::list<C>::const_iterator> li(l.cbegin(), l.cend());
    also("list", show(lexy::make_buffer_from_input(li)));
    also("list with resource", show(lexy::make_buffer_from_input(li, &r)));
    lexy::range_input<E, const C*> pi(v.data(), v.data() + v.size());
    also("pointers", show(lexy::make_buffer_from_input(pi)));
    lexy::buffer<E> b(v.data(), v.size());
    also("buffer", show(lexy::make_buffer_from_input(b)));
    lexy::lexeme_input<lexy::buffer<E>> le(b, b.data(), b.data() + b.size());
    also("lexeme", show(lexy::make_buffer_from_input(le)));
    bool zero = false; for (auto x : v) zero |= x == C(0);
    if (!zero) { auto z = v; z.push_back(C(0)); also("zstring", show(lexy::make_buffer_from_input(lexy::zstring_input<E>(z.data())))); }
    if constexpr (sizeof(C) == 1) if (!zero)
    {
        // arguments are separated by zeros: one argument
        std::string arg(v.begin(), v.end()); std::string name = "prog"; char* argv[] = {name.data(), arg.data(), nullptr};
        also("argv", show(lexy::make_buffer_from_input(lexy::argv_input<E>(2, argv))));
    }
    return a;
}
%s
}
'''
ENC = {"utf8": "lexy::utf8_encoding", "utf8c": "lexy::utf8_char_encoding", "utf16": "lexy::utf16_encoding", "utf32": "lexy::utf32_encoding", "ascii": "lexy::ascii_encoding", "default": "lexy::default_encoding"}
SZ = {"utf16": 2, "utf32": 4}
def suite(run, work, dev=False):
    seed, tier = (run.seed, run.tier) if run else ("1", "quick")
    rng = random.Random("c16m" + seed)
    calls, src = [], {}
    for e in ENC:
        regs, n = [], SZ.get(e, 1)
        me = "utf8" if e == "utf8c" else e
        for en in ["little", "big"] + (["bom"] if e.startswith("utf") else []):
            regs.append('static bool r_%s = reg("raw.%s.%s", &raw<%s, lexy::encoding_endianness::%s>);' % (en, e, en, ENC[e], en))
            al = {1: [0xEF, 0xBB, 0xBF, 0x61, 0xFE], 2: [0xFE, 0xFF, 0, 0x61], 4: [0xFE, 0xFF, 0, 0x7F]}[n]
            if n == 1: ins = [list(x) for k in range(5) for x in itertools.product(al, repeat=k)]
            elif n == 2: ins = [list(x) for k in (0, 2, 4) for x in itertools.product(al, repeat=k)] + [[rng.choice(al) for _ in range(k)] for k in (6, 8, 16, 18) for _ in range(60)]
            else: ins = [[]] + [list(x) for x in itertools.product(al, repeat=4)] + [[rng.choice([0xFE, 0xFF, 0, 0]) if i % 4 else rng.choice([0, 0, 0xFF]) for i in range(k)] for k in (8, 12, 16, 20) for _ in range(100)]
            if n == 4: ins += [a + b for a in ([0, 0, 0xFE, 0xFF], [0xFF, 0xFE, 0, 0]) for b in ([0, 0, 0, 0x61], [0x61, 0, 0, 0], [0, 0, 0xFE, 0xFF], [0xFF, 0xFE, 0, 0], [0, 0x10, 0xFF, 0xFD])]
            for x in ins:
                if e.startswith("utf8") and 0xFF in x: continue
                # a unit that is the end-of-file value cannot be read back; 32-bit integers in TLC are signed
                if n == 4 and any(x[4*k] > 0x7F and en != "little" or x[4*k+3] > 0x7F and en != "big" for k in range(len(x) // 4)):
                    if not (en == "bom" and (x[:4] == [0, 0, 0xFE, 0xFF] and all(x[4*k] <= 0x7F for k in range(1, len(x) // 4)) or x[:4] == [0xFF, 0xFE, 0, 0] and all(x[4*k+3] <= 0x7F for k in range(1, len(x) // 4))
                            or x[:4] not in ([0, 0, 0xFE, 0xFF], [0xFF, 0xFE, 0, 0]) and all(x[4*k] <= 0x7F for k in range(len(x) // 4)))): continue
                calls.append(("raw.%s.%s %s" % (e, en, " ".join(map(str, x))), {"f": "raw", "e": me, "n": en, "i": x}))
        regs.append('static bool f_ = reg("from.%s", &from<%s>);' % (e, ENC[e]))
        al = {"utf8": [97, 0, 0xC3, 0xFE], "utf8c": [97, 0, 0xC3, 0x80], "ascii": [97, 0, 127, 0xFE], "default": [97, 0, 0xFF, 0x80], "utf16": [97, 0, 0xFFFF, 0xDC00], "utf32": [97, 0, 0x10FFFF, 0x110000]}[e]
        ins = [list(x) for k in range(4) for x in itertools.product(al, repeat=k)] + [[rng.choice(al) for _ in range(k)] for k in (7, 8, 9, 15, 16, 17, 40) for _ in range(4)] + [[97] * k for k in range(40)]
        for x in ins: calls.append(("from.%s %s" % (e, " ".join(map(str, x))), {"f": "input", "e": me, "n": "", "i": x}))
        src["mb_" + e] = SRC.replace("%s\n}", "\n".join(regs) + "\n}")
    def post(r, o):
        bad = [x for x in o if not x.isdigit()]
        return [-1] if bad else [int(x) for x in o]
    return callrun.suite(run, work, "c16m", "Convert", calls, src, post=post, opt="-O0", extra=("CXX=clang++", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all"), mem_kb=0)
