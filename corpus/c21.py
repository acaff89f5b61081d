"""visualisation of code points and lexemes under all options"""
import random, itertools
from gram import *
from vlib import *
import callrun
SRC = r'''
#define LEXY_EXPERIMENTAL 1
#include <lexy/input/buffer.hpp>
#include <lexy/input/parse_tree_input.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/parse_tree.hpp>
#include <lexy/visualize.hpp>
#include <cstring>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace vf {
using units = std::vector<unsigned long>;
using strs  = std::vector<std::string>;
using fn    = strs (*)(const units&);
std::map<std::string, fn>& registry();
inline bool reg(const char* n, fn f) { registry()[n] = f; return true; }
inline std::string bytes(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
        if (c >= 0x20 && c < 0x7F) r += char(c);
        else { char b[8]; std::snprintf(b, sizeof b, "{%%02X}", c); r += b; }
    return r;
}
inline lexy::visualization_options options(const units& u)
{
    lexy::visualization_options o;
    o.flags = lexy::visualization_flags(((u[0] & 1) ? lexy::visualize_use_unicode : 0) | ((u[0] & 2) ? lexy::visualize_use_color : 0) | ((u[0] & 4) ? lexy::visualize_use_symbols : 0) | ((u[0] & 8) ? lexy::visualize_space : 0));
    o.max_lexeme_width = (unsigned char)(u[1]); o.tab_width = (unsigned char)(u[2]);
    return o;
}
template <typename F> std::string into(std::FILE*& std_file, F f)
{
    char* mem = nullptr; std::size_t size = 0; auto old = std_file;
    std_file = ::open_memstream(&mem, &size); f(std_file); std::fclose(std_file); std_file = old;
    std::string r(mem, size); std::free(mem); return r;
}
template <typename T> void show(strs& r, const T& obj, lexy::visualization_options o)
{
    std::string s; lexy::visualize_to(std::back_inserter(s), obj, o);
    // every other way to write it
    std::list<char> l; lexy::visualize_to(std::back_inserter(l), obj, o);
    static char buf[200000]; auto end = lexy::visualize_to(&buf[0], obj, o);
    if (std::string(l.begin(), l.end()) != s || std::string(buf, end) != s) r.push_back("iterators differ");
    std::FILE* any = nullptr;
    if (into(any, [&](std::FILE* f) { lexy::visualize(f, obj, o); }) != s) r.push_back("visualize differs");
    if (into(any, [&](std::FILE* f) { lexy::visualize_to(lexy::cfile_output_iterator(f), obj, o); }) != s) r.push_back("cfile differs");
    if (into(stdout, [&](std::FILE*) { lexy::visualize_to(lexy::stdout_output_iterator{}, obj, o); }) != s) r.push_back("stdout differs");
    if (into(stderr, [&](std::FILE*) { lexy::visualize_to(lexy::stderr_output_iterator{}, obj, o); }) != s) r.push_back("stderr differs");
    r.push_back(bytes(s));
    r.push_back(std::to_string(lexy::visualization_display_width(obj, o)));
}
inline strs cp(const units& u)
{
    strs r;
    for (unsigned long k = 0; k < u[4]; ++k) show(r, lexy::code_point(char32_t(u[3] + k)), options(u));
    return r;
}
inline strs invalid(const units& u)
{
    strs r; show(r, u[3] == 0 ? lexy::code_point() : lexy::code_point(char32_t(u[3])), options(u)); return r;
}
enum class tk { a };
constexpr const char* token_kind_name(tk) { return "a"; }
template <typename E> strs lex(const units& u)
{
    using C = typename E::char_type;
    auto o = options(u);
    std::vector<C> v; for (std::size_t k = 3; k < u.size(); ++k) v.push_back(C(u[k]));
    // nothing follows it
    std::unique_ptr<C[]> m(new C[v.size()]); std::copy(v.begin(), v.end(), m.get());
    strs r; show(r, lexy::lexeme_for<lexy::string_input<E>>(m.get(), m.get() + v.size()), o);
    auto also = [&](const char* what, const auto& x) { strs s; show(s, x, o); if (s != r) r.push_back(what); };
    lexy::buffer<E> b(v.data(), v.size());
    also("buffer", lexy::lexeme_for<lexy::buffer<E>>(b.data(), b.data() + b.size()));
    std::list<C> l(v.begin(), v.end());
    also("list", lexy::lexeme_for<lexy::range_input<E, typename std::list<C>::const_iterator>>(l.cbegin(), l.cend()));
    using tree = lexy::parse_tree_for<lexy::buffer<E>, tk>;
    using input = lexy::parse_tree_input<typename tree::node>;
    also("parse tree input", lexy::lexeme_for<input>(b.data(), b.data() + b.size()));
    return r;
}
static bool c1 = reg("cp", &cp), c2 = reg("invalid", &invalid);
%s
}
'''
ENC = {"utf8": "lexy::utf8_encoding", "utf8c": "lexy::utf8_char_encoding", "utf16": "lexy::utf16_encoding", "utf32": "lexy::utf32_encoding", "ascii": "lexy::ascii_encoding", "default": "lexy::default_encoding", "byte": "lexy::byte_encoding"}
AL = {"utf8": [97, 32, 9, 10, 92, 0, 0xC3, 0x80, 0xBF, 0xE2, 0xA0, 0xED, 0xF0, 0x90, 0xF4, 0xC0, 0xFE, 127], "utf16": [97, 32, 0xD800, 0xDC00, 0xDBFF, 0xDFFF, 0xFFFF, 0x20AC, 9, 0, 0xD7FF, 0xE000, 0x100], "utf32": [97, 32, 0xD800, 0xDFFF, 0x10FFFF, 0x110000, 0x20AC, 0x1F600, 10, 0, 0xFF0000, 0x7F000000, 0x7FFFFFFF, 0x80],
  "ascii": [97, 32, 9, 0x80, 0xFE, 0, 127, 92], "default": [97, 32, 9, 0x80, 0xFF, 0, 127, 92, 13], "byte": [97, 32, 0, 0x80, 0xFF, 10, 9, 16]}
def suite(run, work, dev=False):
    seed, tier = (run.seed, run.tier) if run else ("1", "quick")
    rng = random.Random("c21" + seed)
    calls = []
    def add(name, fl, w, tab, args, rec): calls.append(("%s %d %d %d %s" % (name, fl, w, tab, " ".join(map(str, args))), dict({"fl": fl, "w": w, "tab": tab}, **rec)))
    def cps(a, n, fl, tab): add("cp", fl, 0, tab, [a, n], {"f": "cp", "cp": a, "n": n})
    for fl in range(16):
        for a in range(0, 0x100, 16): cps(a, 16, fl, rng.choice([0, 0, 1, 4]))
        for a in (0xF8, 0x3F8, 0x7F8, 0xD7F8, 0xDFF8, 0xFDC8, 0xFFF8, 0xFFFF8, 0x10FFF0): cps(a, 16, fl, 0)
        for tab in (0, 1, 2, 8, 255): cps(8, 3, fl, tab)
        for bad in (0, 0x110000, 0x7FFFFFFF): add("invalid", fl, 0, 0, [bad], {"f": "invalid"})
    for a in (range(0, 0x110000, 64) if tier != "quick" else [rng.randrange(0, 0x110000 - 32) for _ in range(400)]):
        cps(a, 64 if tier != "quick" else 32, rng.randrange(16), 0)
    for e in ENC:
        me = "utf8" if e == "utf8c" else e
        al = AL[me]
        def lex(x): add("lex." + e, rng.randrange(16), rng.choice([0, 0, 1, 2, 3, 4, 5, 255]), rng.choice([0, 0, 1, 3]), x, {"f": "lex", "e": me, "i": list(x)})
        for k in range(4 if len(al) < 11 else 3):
            for x in itertools.product(al, repeat=k): lex(x)
        for _ in range(900 if tier == "quick" else 20000):
            k = rng.choice([3, 4, 5, 6, 8, 12, 20])
            lex([rng.choice(al) for _ in range(k)])
        for fl in range(16):
            for w in (0, 1, 2, 3, 4, 5, 6):
                x = [rng.choice(al) for _ in range(5)]
                add("lex." + e, fl, w, 2, x, {"f": "lex", "e": me, "i": x})
        for _ in range(10): 
            x = [rng.choice(al) for _ in range(rng.choice([254, 255, 256, 257]))]
            add("lex." + e, rng.randrange(16), rng.choice([0, 254, 255]), 0, x, {"f": "lex", "e": me, "i": x})
    src = {"vis": SRC.replace("%%", "%").replace("%s\n}", "\n".join('static bool l_%s = reg("lex.%s", &lex<%s>);' % (e, e, ENC[e]) for e in ENC) + "\n}")}
    def post(r, o):
        return o
    return callrun.suite(run, work, "c21", "Visual", calls, src, post=post, extra=("CXX=clang++", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"), mem_kb=0)
