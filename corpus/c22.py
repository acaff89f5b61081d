"""diagnostics: messages, paths and annotations of arbitrary ranges, under all options"""
import random, itertools
from gram import *
from vlib import *
import callrun
SRC = r"""
#include <lexy/input/buffer.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy_ext/report_error.hpp>
#include <cstring>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace vf {
using units = std::vector<unsigned long>;
using strs  = std::vector<std::string>;
using fn    = strs (*)(const units&);
std::map<std::string, fn>& registry();
inline bool reg(const char* n, fn f) { registry()[n] = f; return true; }
inline std::string bytes(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
        if (c >= 0x20 && c < 0x7F) r += char(c);
        else { char b[8]; std::snprintf(b, sizeof b, "{%02X}", c); r += b; }
    return r;
}
inline lexy::visualization_options options(const units& u)
{
    lexy::visualization_options o;
    o.flags = lexy::visualization_flags(((u[0] & 1) ? lexy::visualize_use_unicode : 0) | ((u[0] & 2) ? lexy::visualize_use_color : 0) | ((u[0] & 4) ? lexy::visualize_use_symbols : 0) | ((u[0] & 8) ? lexy::visualize_space : 0));
    o.max_lexeme_width = (unsigned char)(u[1]); o.tab_width = (unsigned char)(u[2]);
    return o;
}
struct says
{
    template <typename It> It operator()(It out, lexy::visualization_options o) const
    {
        std::string s = "says ";
        if (o.is_set(lexy::visualize_use_unicode)) s += 'u';
        if (o.is_set(lexy::visualize_use_color)) s += 'c';
        if (o.is_set(lexy::visualize_use_symbols)) s += 's';
        if (o.is_set(lexy::visualize_space)) s += 'p';
        s += std::to_string(int(o.max_lexeme_width)) + " " + std::to_string(int(o.tab_width));
        for (char c : s) *out++ = c;
        return out;
    }
};
// flags, width, tab, kind of message, primary, position, end, size, input
template <typename Counting, typename Input>
strs on(const Input& input, const units& u)
{
    strs r;
    lexy_ext::diagnostic_writer<Input> w(input, options(u));
    auto put = [&](auto f) {
        std::string s; f(std::back_inserter(s));
        static char buf[100000]; char* end = f(&buf[0]);
        std::list<char> l; auto o = f(std::back_inserter(l)); *o++ = '.';
        if (std::string(buf, end) != s || std::string(l.begin(), l.end()) != s + ".") r.push_back("iterators differ");
        r.push_back(bytes(s));
    };
    auto at = [&](unsigned long n) { auto b = input.reader().position(); std::advance(b, n); return b; };
    auto l = lexy::get_input_location<Counting>(input, at(u[5]));
    put([&](auto out) { return w.write_message(out, lexy_ext::diagnostic_kind(u[3]), says{}); });
    put([&](auto out) { return w.write_path(out, u[3] %% 2 ? "some/path: \\\xC3\xA9" : ""); });
    put([&](auto out) { return w.write_empty_annotation(out); });
    auto k = u[4] ? lexy_ext::annotation_kind::primary : lexy_ext::annotation_kind::secondary;
    put([&](auto out) { return w.write_annotation(out, k, l, at(u[6]), says{}); });
    put([&](auto out) { return w.write_annotation(out, k, l, std::size_t(u[7]), says{}); });
    return r;
}
template <typename C, typename E, bool Cp> strs run(const units& u)
{
    using T = typename E::char_type;
    std::vector<T> v; for (std::size_t k = 8; k < u.size(); ++k) v.push_back(T(u[k]));
    std::unique_ptr<T[]> m(new T[v.size()]); std::copy(v.begin(), v.end(), m.get());
    auto r = on<C>(lexy::string_input<E>(m.get(), v.size()), u);
    if (on<C>(lexy::buffer<E>(v.data(), v.size()), u) != r) r.push_back("buffer differs");
    std::list<T> l(v.begin(), v.end());
    if (on<C>(lexy::range_input<E, typename std::list<T>::const_iterator>(l.cbegin(), l.cend()), u) != r) r.push_back("list differs");
    return r;
}
%s
}
"""
ENC = {"utf8": "lexy::utf8_encoding", "utf8c": "lexy::utf8_char_encoding", "utf16": "lexy::utf16_encoding", "utf32": "lexy::utf32_encoding", "ascii": "lexy::ascii_encoding", "default": "lexy::default_encoding", "byte": "lexy::byte_encoding"}
CNT = {"unit": "lexy::code_unit_location_counting", "cp": "lexy::code_point_location_counting", "2": "lexy::byte_location_counting<2>", "16": "lexy::byte_location_counting<>"}
SYM = {"utf8": [[97], [98], [10], [13, 10], [13], [9], [32], [0xC3, 0xA9], [0xE2, 0x82, 0xAC], [0xF0, 0x9F, 0x98, 0x80], [0x80], [0xC3], [0], [92]],
  "utf16": [[97], [10], [13, 10], [13], [9], [32], [0x20AC], [0xD83D, 0xDE00], [0xD83D], [0xDE00], [0xFF]],
  "utf32": [[97], [10], [13, 10], [13], [9], [32], [0x20AC], [0x1F600], [0xD800], [0x110000]],
  "ascii": [[97], [98], [10], [13, 10], [13], [9], [0x80], [32], [7]], "default": [[97], [98], [10], [13, 10], [13], [9], [0x80], [32], [0xFF]], "byte": [[97], [10], [13, 10], [0xFF], [0]]}
def suite(run, work, dev=False):
    seed, tier = (run.seed, run.tier) if run else ("1", "quick")
    rng = random.Random("c22" + seed)
    calls, src = [], ""
    for e in ENC:
        me = "utf8" if e == "utf8c" else e
        ks = ["2", "16"] if e == "byte" else ["unit"] if e in ("ascii", "default") else ["unit", "cp"]
        sy = SYM[me]
        for k in ks:
            src += 'static bool r_%s_%s = reg("%s.%s", &run<%s, %s, %s>);\n' % (e, k, e, k, CNT[k], ENC[e], "true" if k == "cp" else "false")
            def loc(i, p):    # the last column or newline that begins at or before p
                return p
            def add(i, p, q, n, fl, w, tab, m, pr):
                calls.append(("%s.%s %d %d %d %d %d %d %d %d %s" % (e, k, fl, w, tab, m, pr, p, q, n, " ".join(map(str, i))),
                  {"fl": fl, "w": w, "tab": tab, "m": m + 1, "pr": pr, "p": p, "q": q, "n": n, "e": me, "k": k, "i": list(i), "path": "some/path: \\{C3}{A9}" if m % 2 else ""}))
            def some(i, every=False):
                ends = [(p, q) for p in range(len(i) + 1) for q in range(p, len(i) + 1)]
                for p, q in (ends if every else rng.sample(ends, min(3, len(ends)))):
                    add(i, p, q, rng.choice([0, 1, q - p, q - p + 1, 2, 3, len(i) + 2]), rng.randrange(16), rng.choice([0, 0, 0, 0, 1, 2, 4, 9]), rng.choice([0, 0, 1, 3, 8]), rng.randrange(7), rng.randrange(2))
            for n in range(3):
                for x in itertools.product(sy, repeat=n): some(sum(x, []), True)
            for _ in range(250 if tier == "quick" else 12000):
                some(sum((rng.choice(sy) for _ in range(rng.choice([3, 4, 6, 9, 15]))), []))
            # line numbers
            for n in (9, 10, 99, 100) + ((999, 1000) if e == "default" else ()):
                i = ([10] if k not in ("2", "16") else [0] * int(k)) * n + [97, 98]
                add(i, len(i) - 2, len(i) - 1, 1, 0, 0, 0, 0, 1)
    return callrun.suite(run, work, "c22", "Diagnose", calls, {"diag": SRC.replace("%%", "%").replace("%s\n}", src + "}")}, extra=("CXX=clang++", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"), mem_kb=0)
