"""locations of positions, and line annotations"""
import random, itertools
from gram import *
from vlib import *
import callrun
SRC = r'''
#include <lexy/input/buffer.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/input_location.hpp>
#include <list>
#include <map>
#include <string>
#include <vector>
namespace vf {
using units = std::vector<unsigned long>;
using fn    = std::vector<std::string> (*)(const units&);
std::map<std::string, fn>& registry();
using strs = std::vector<std::string>;
inline bool reg(const char* n, fn f) { registry()[n] = f; return true; }
struct dflt {};
template <typename C, typename Input, typename It> auto find(const Input& in, It p)
{ if constexpr (std::is_same_v<C, dflt>) return lexy::get_input_location(in, p); else return lexy::get_input_location<C>(in, p); }
template <typename C, typename Input, typename It, typename A> auto find(const Input& in, It p, A a)
{ if constexpr (std::is_same_v<C, dflt>) return lexy::get_input_location(in, p, a); else return lexy::get_input_location<C>(in, p, a); }
template <typename C, typename Input> strs all(const Input& in)
{
    strs r;
    auto put = [&](long v) { r.push_back(std::to_string(v)); };
    auto rd = in.reader();
    std::vector<decltype(rd.position())> at;
    at.push_back(rd.position());
    while (rd.peek() != decltype(rd)::encoding::eof()) { rd.bump(); at.push_back(rd.position()); }
    auto idx = [&](auto it) { for (std::size_t i = 0; i < at.size(); ++i) if (at[i] == it) return long(i); return -1l; };
    auto loc = [&](const auto& l) { put(l.line_nr()); put(l.column_nr()); put(idx(l.position())); };
    auto ann = [&](const auto& a) {
        put(idx(a.before.begin()));
        put(a.before.end() == a.annotated.begin() ? idx(a.before.end()) : -2);
        put(a.annotated.end() == a.after.begin() ? idx(a.annotated.end()) : -3);
        put(idx(a.after.end())); put(a.truncated_multiline); put(a.annotated_newline); put(a.rounded_end);
    };
    auto n = at.size() - 1;
    lexy::input_location<Input> first(in); loc(first);
    loc(find<C>(in, at[n], lexy::input_location_anchor<Input>(in)));
    for (std::size_t p = 0; p <= n; ++p)
    {
        auto l = find<C>(in, at[p]);
        loc(l);
        auto b = std::size_t(idx(l.position()));
        for (auto q = b; q <= n; ++q) loc(find<C>(in, at[q], l.anchor()));
        for (auto q = b; q <= n; ++q) ann(lexy::get_input_line_annotation(in, l, at[q]));
        for (auto q = b; q <= n + 2; ++q) ann(lexy::get_input_line_annotation(in, l, q - b));
        for (std::size_t q = 0; q <= n; ++q)
        { auto o = find<C>(in, at[q]); put((l == o) * 32 + (l != o) * 16 + (l < o) * 8 + (l <= o) * 4 + (l > o) * 2 + (l >= o)); }
    }
    return r;
}
template <typename E> std::vector<typename E::char_type> chars(const units& u)
{ std::vector<typename E::char_type> v; for (auto x : u) v.push_back(typename E::char_type(x)); return v; }
template <typename E, typename C> strs via_string(const units& u) { auto v = chars<E>(u); return all<C>(lexy::string_input<E>(v.data(), v.size())); }
template <typename E, typename C> strs via_buffer(const units& u) { auto v = chars<E>(u); return all<C>(lexy::buffer<E>(v.data(), v.size())); }
template <typename E, typename C> strs via_list(const units& u)
{ auto v = chars<E>(u); std::list<typename E::char_type> l(v.begin(), v.end()); return all<C>(lexy::range_input<E, typename std::list<typename E::char_type>::const_iterator>(l.cbegin(), l.cend())); }
%s
}
'''
ENC = {"utf8": "lexy::utf8_encoding", "utf8c": "lexy::utf8_char_encoding", "utf16": "lexy::utf16_encoding", "utf32": "lexy::utf32_encoding", "ascii": "lexy::ascii_encoding", "default": "lexy::default_encoding", "byte": "lexy::byte_encoding"}
CNT = {"unit": "lexy::code_unit_location_counting", "cp": "lexy::code_point_location_counting", "d": "dflt", "16": "lexy::byte_location_counting<>"}
ALPHA = {"utf8": [97, 10, 13, 0xC3, 0xA4, 0xE2, 0xF0], "utf8c": [97, 10, 13, 0xC3, 0xA4, 0xE2], "utf16": [97, 10, 13, 0xD83D, 0xDE00], "utf32": [97, 10, 13, 0x1F600, 0xD800, 0x110000],
         "ascii": [97, 10, 13, 0x80], "default": [97, 10, 13, 0xA4, 0xFF], "byte": [97, 10, 0, 0xFF]}
KINDS = ["string", "buffer", "list"]
def suite(run, work, dev=False):
    seed, tier = (run.seed, run.tier) if run else ("1", "quick")
    rng = random.Random("c18" + seed)
    calls, regs = [], {e: [] for e in ENC}
    for e in ENC:
        cn = ["1", "2", "3", "7", "16", "d"] if e == "byte" else ["unit", "d"] if e == "default" else ["unit", "cp", "d"]
        al = ALPHA[e]
        inputs = [list(x) for n in range(4 if tier == "quick" else 5) for x in itertools.product(al, repeat=n)]
        if len(inputs) > 400 and tier == "quick": inputs = rng.sample(inputs, 400)
        text = lambda: rng.choice([[97], [97, 97], [10], [13, 10], [13], enc_units("ä", "utf8") if e.startswith("utf8") else [al[-1]], enc_units("€", "utf8") if e.startswith("utf8") else [al[3]],
                                   enc_units("😀", e.rstrip("c")) if e.startswith("utf") else [97], [rng.choice(al)]])
        for i in range(80 if tier == "quick" else 1500):
            x = []
            while len(x) < rng.randint(4, 12): x += text()
            inputs.append(x)
        if e == "byte": inputs += [[rng.choice(al) for _ in range(n)] for n in (13, 14, 15, 16, 17, 18, 31, 32, 33)]
        for ci, c in enumerate(cn):
            cpp = CNT.get(c, "lexy::byte_location_counting<%s>" % c)
            for k in KINDS:
                if c == "d" and k != "string": continue
                regs[e].append('static bool %s_%s_%s = reg("%s.%s.%s", &via_%s<%s, %s>);' % (k, e, c, k, e, c, k, ENC[e], cpp))
            model = ("16" if e == "byte" else "unit") if c == "d" else c
            for j, x in enumerate(inputs):
                if c == "d" and j % 4: continue
                if e == "byte" and c not in ("2", "3") and len(x) < 4 and j % 3: continue
                k = "string" if c == "d" else KINDS[(j + ci) % 3]
                calls.append(("%s.%s.%s %s" % (k, e, c, " ".join(map(str, x))), {"e": e.rstrip("c") if e == "utf8c" else e, "k": model, "i": x}))
    src = {"loc_" + e: SRC.replace("%s\n}", "\n".join(regs[e]) + "\n}") for e in ENC}
    return callrun.suite(run, work, "c18", "Location", calls, src, post=lambda r, o: [int(x) for x in o], opt="-O0", extra=("CXX=clang++", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"), mem_kb=0)
