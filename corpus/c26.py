"""histories of an interactive shell"""
import random, itertools, json
from gram import *
from vlib import *
import callrun
SRC = r'''
#include <lexy_ext/shell.hpp>
#include <algorithm>
#include <lexy/input_location.hpp>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>
namespace vf {
using units = std::vector<unsigned long>;
using strs  = std::vector<std::string>;
using fn    = strs (*)(const units&);
std::map<std::string, fn>& registry();
inline bool reg(const char* n, fn f) { registry()[n] = f; return true; }
template <typename C> unsigned long num(C c) { return (unsigned long)(std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, std::conditional_t<sizeof(C) == 2, short, int>>>(c)); }
struct world { units text; std::size_t at = 0; bool eager = false, open = true; units log; };
template <typename E> struct prompt
{
    using encoding = E; using char_type = typename E::char_type;
    world* w;
    void primary_prompt() { w->log.push_back('P'); }
    void continuation_prompt() { w->log.push_back('C'); }
    void eof_prompt() { w->log.push_back('E'); }
    bool is_open() const { return w->open; }
    struct read_line_callback
    {
        world* w;
        std::size_t operator()(char_type* buffer, std::size_t size)
        {
            std::size_t n = 0;
            while (n < size)
            {
                if (w->at == w->text.size()) { w->open = false; break; }
                buffer[n++] = char_type(w->text[w->at++]);
                if (w->eager && w->at == w->text.size()) w->open = false;
                if (buffer[n - 1] == char_type('\n')) break;
            }
            return n;
        }
        void done() && {}
    };
    auto read_line() { return read_line_callback{w}; }
    struct write_message_callback
    {
        world* w;
        void operator()(const char_type* buffer, std::size_t size) { for (std::size_t i = 0; i < size; ++i) w->log.push_back(num(buffer[i])); }
        void done() && { w->log.push_back(']'); }
    };
    auto write_message() { w->log.push_back('['); return write_message_callback{w}; }
};
inline std::string list(const units& u) { std::string r = "["; for (std::size_t i = 0; i < u.size(); ++i) r += (i ? "," : "") + std::to_string(u[i]); return r + "]"; }
inline units digest(const units& v) { unsigned long h = 7; for (auto u : v) h = (h * 31 + u % 65521) % 65521; return {v.size(), h}; }
// eager, length of the text, the text, operations
template <typename Shell, typename Log> strs run(const units& u, std::size_t at, Shell& sh, Log log)
{
    using C = typename Shell::char_type;
    using input = typename Shell::input;
    std::optional<input> in; std::optional<input> s[3];
    strs out;
    while (at < u.size())
    {
        auto op = u[at], i = u[at + 1], j = u[at + 2], n = u[at + 3], k = u[at + 4]; at += 5;
        std::vector<C> v; for (std::size_t x = 0; x < k; ++x) v.push_back(C(u[at + x]));
        at += k;
        std::string r = "[]";
        auto lex = [&] { return lexy::lexeme_for<input>(s[i]->position(), s[j]->position()); };
        switch (op)
        {
        case 0: { auto fresh = sh.prompt_for_input(); in.emplace(fresh); for (auto& x : s) x.reset(); s[i].emplace(in->reader()); break; }
        case 1: if (n == 0) s[i].emplace(*s[j]); else if (n == 1) { auto m = s[j]->current(); s[i].emplace(*in); s[i]->reset(m); } else { auto m = s[j]->current(); s[i].emplace(in->reader()); s[i]->reset(m); if (s[i]->position() != m.position()) r = "[-9]"; } break;
        case 2: { auto c = s[i]->peek(); r = c == Shell::encoding::eof() ? "[-1]" : list({num(C(c))}); if (s[i]->peek() != c) r = "[-3]"; break; }
        case 3: { units g; for (unsigned long x = 0; x < n; ++x) { auto c = s[i]->peek(); if (c == Shell::encoding::eof()) break; g.push_back(num(C(c))); s[i]->bump(); } r = list(digest(g)); break; }
        case 4: { auto l = lexy::get_input_location(*in, s[i]->position()); r = list({l.line_nr(), l.column_nr()}); break; }
        case 5: r = list({(unsigned long)(s[i]->position() == s[j]->position())}); break;
        case 6: { units g; auto l = lex(); for (auto c : l) g.push_back(num(c)); auto d = digest(g); if (l.empty() != g.empty()) d.push_back(0); r = list(d); break; }
        case 7:
        {
            auto w = sh.write_message();
            if (n == 0) w(v.data(), v.size());
            else if (n == 1) for (auto c : v) w(c);
            else if (n == 2) { auto it = w.output_iterator(); for (auto c : v) *it++ = char(c); }
            else if (n == 3) { w(v.data(), v.size() / 2); w(v.data() + v.size() / 2, v.size() - v.size() / 2); }
            else { v.push_back(C(0)); w(v.data()); }
            break;
        }
        case 8: { auto w = sh.write_message(); w(lex()); break; }
        }
        out.push_back("{\"v\":" + r + ",\"open\":" + (sh.is_open() ? "true" : "false") + ",\"log\":" + list(log()) + "}");
    }
    return out;
}
template <typename E> strs custom(const units& u)
{
    world w; w.eager = u[0]; w.text.assign(u.begin() + 2, u.begin() + 2 + u[1]);
    if (w.eager && w.text.empty()) w.open = false;
    auto sh = std::make_unique<lexy_ext::shell<prompt<E>>>(prompt<E>{&w});
    return run(u, 2 + u[1], *sh, [&] { auto l = w.log; w.log.clear(); return l; });
}
struct source { std::string text; std::size_t at = 0; std::size_t piece; };
inline ssize_t source_read(void* s, char* b, size_t n)
{
    auto& x = *static_cast<source*>(s);
    if (n > x.piece) n = x.piece;
    if (n > x.text.size() - x.at) n = x.text.size() - x.at;
    std::copy_n(x.text.data() + x.at, n, b); x.at += n;
    return long(n);
}
template <typename E> strs standard(const units& u)
{
    source src; for (std::size_t k = 0; k < u[1]; ++k) src.text += char(u[2 + k]);
    src.piece = u[1] % 3 == 0 ? 1 : u[1] % 3 == 1 ? 7 : 100000;
    auto in = ::fopencookie(&src, "rb", {&source_read, nullptr, nullptr, nullptr});
    char* mem = nullptr; std::size_t size = 0; auto out = ::open_memstream(&mem, &size); std::size_t seen = 0;
    auto oin = stdin, oout = stdout; stdin = in; stdout = out;
    strs r;
    {
        lexy_ext::shell<lexy_ext::default_prompt<E>> sh;
        r = run(u, 2 + u[1], sh, [&] { std::fflush(out); units l; for (; seen < size; ++seen) l.push_back((unsigned char)(mem[seen])); return l; });
    }
    stdin = oin; stdout = oout; std::fclose(in); std::fclose(out); std::free(mem);
    return r;
}
static bool a1 = reg("custom.default", &custom<lexy::default_encoding>), a2 = reg("custom.utf8", &custom<lexy::utf8_encoding>), a3 = reg("custom.utf16", &custom<lexy::utf16_encoding>), a4 = reg("custom.utf32", &custom<lexy::utf32_encoding>),
  a5 = reg("standard.default", &standard<lexy::default_encoding>), a6 = reg("standard.utf8c", &standard<lexy::utf8_char_encoding>), a7 = reg("standard.utf8", &standard<lexy::utf8_encoding>), a8 = reg("standard.ascii", &standard<lexy::ascii_encoding>);
}
'''
OPS = "input copy peek advance where same lexeme say echo".split()
UNITS = {"default": [97, 0, 0xFE, 40, 13], "utf8": [97, 0x80, 0xC3, 0], "utf8c": [97, 0x80, 0xC3, 0], "ascii": [97, 98, 0, 127], "utf16": [97, 0x6100, 0xD800, 0x0A00, 0x0A0A], "utf32": [97, 0x10FFFF, 0x0A00, 0x0A0000]}
def text(rng, e, sizes):
    t = []
    for k, n in enumerate(sizes): t += [rng.choice(UNITS[e]) for _ in range(n)] + [10]
    return t
class Sim:
    """which operations are possible: only what the preconditions need"""
    def __init__(self): self.at = [None] * 3
def gen(rng, e, t, eager, n, plain):
    """positions are tracked so that lexemes are given begin before end and of one input"""
    ops, at = [], [None] * 3
    rest, txt, opn = list(t), 0, bool(t) or not eager
    def read():
        nonlocal txt, opn, rest
        k = rest.index(10) + 1 if 10 in rest else len(rest)
        whole = 10 in rest
        txt += k; rest = rest[k:]
        if not whole or (eager and not rest): opn = False
    def op(f, i=0, j=0, n=0, v=()): ops.append(dict(f=f, i=i + 1, j=j + 1, n=n, v=list(v)))
    while len(ops) < n:
        f = rng.choice(OPS + ["advance", "advance", "peek"])
        i, j = rng.randrange(3), rng.randrange(3)
        if f == "input" or all(a is None for a in at):
            if len(ops) > 1 and ops and rng.random() < .6 and f == "input": continue
            op("input", i); txt = 0; at = [None] * 3; at[i] = 0; read(); continue
        if f == "copy":
            if at[j] is None: continue
            op("copy", i, j, rng.randrange(3)); at[i] = at[j]; continue
        if f in ("peek", "advance", "where") and at[i] is None: continue
        if f in ("same", "lexeme", "echo") and (at[i] is None or at[j] is None or at[i] > at[j]): continue
        if f == "peek":
            op("peek", i)
            if at[i] == txt and opn: read()
        elif f == "advance":
            m = rng.choice([1, 1, 2, 3, 10, 127, 128, 200, 999, 1000, 1001, 3000])
            op("advance", i, 0, m)
            while m:
                if at[i] == txt and opn: read()
                if at[i] == txt: break
                k = min(m, txt - at[i]); at[i] += k; m -= k
        elif f in ("where", "same", "lexeme", "echo"): op(f, i, j)
        elif f == "say":
            v = [rng.choice(UNITS[e] + [10]) for _ in range(rng.choice([0, 1, 2, 5, 30]))]
            how = rng.randrange(5)
            if how == 2: v = [x for x in v if 0 < x < 128]
            if how == 4: v = [x for x in v if x]
            op("say", 0, 0, how, v)
    return ops
def line(name, eager, t, ops):
    return "%s %d %d %s" % (name, int(eager), len(t), " ".join(map(str, t + [x for o in ops for x in [OPS.index(o["f"]), o["i"] - 1, o["j"] - 1, o["n"], len(o["v"]), *o["v"]]])))
def suite(run, work, dev=False):
    seed, tier = (run.seed, run.tier) if run else ("1", "quick")
    rng = random.Random("c26" + seed)
    calls = []
    def add(kind, e, eager, t, ops):
        calls.append((line(kind + "." + e, eager, t, ops), {"s": ops, "text": t, "nl": [k + 1 for k, c in enumerate(t) if c == 10], "eager": eager, "plain": kind == "standard"}))
    kinds = [("custom", e) for e in ("default", "utf8", "utf16", "utf32")] + [("standard", e) for e in ("default", "utf8c", "utf8", "ascii")]
    o = lambda f, i=0, j=0, n=0, v=(): dict(f=f, i=i + 1, j=j + 1, n=n, v=list(v))
    lens = [0, 1, 2, 126, 127, 128, 129, 240, 247, 248, 249, 250, 371, 372, 373, 498, 499, 500, 501, 869, 870, 871, 872, 873, 874, 997, 998, 999, 1000, 1001, 1002, 1998, 1999, 2000, 2001, 3999, 4000, 4001]
    for kind, e in kinds:
        for eager in ((False, True) if kind == "custom" else (False,)):
            # one line of every length, two of them, with and without the final newline
            for n in lens if tier != 'quick' else sorted(rng.sample(lens, 24)):
                for sizes in ([n], [n, 3], [3, n], [n, n]) if n < 2100 else ([n],):
                    for cut in (False, True):
                        t = text(rng, e, sizes)
                        if cut: t.pop()
                        ops = [o("input"), o("copy", 1, 0), o("advance", 0, 0, n), o("peek", 0), o("advance", 0, 0, 2), o("peek", 0), o("where", 0), o("lexeme", 1, 0), o("advance", 0, 0, 5000), o("peek", 0), o("lexeme", 1, 0), o("echo", 1, 0), o("echo", 0, 0), o("input"), o("peek", 0), o("where", 0), o("echo", 0, 0)]
                        if cut is False and n % 3 == 0: ops = ops[:1] + [o("advance", 0, 0, max(0, n - 1)), o("peek", 0), o("input"), o("peek", 0), o("advance", 0, 0, 5000), o("input"), o("peek", 0)]
                        add(kind, e, eager, t, ops)
            add(kind, e, eager, [], [o("input"), o("peek", 0), o("where", 0), o("echo", 0, 0), o("input"), o("advance", 0, 0, 3)])
            # all small texts
            c = UNITS[e][0]
            for k in range(5):
                for t in itertools.product([c, 10], repeat=k):
                    ops = [o("input"), o("copy", 1, 0, 0), o("copy", 2, 0, 1)] + [o("peek", 0), o("advance", 0, 0, 1)] * (k + 2) + [o("where", 0), o("lexeme", 1, 0), o("advance", 2, 0, 9), o("same", 0, 2), o("input"), o("advance", 0, 0, 9), o("peek", 0)]
                    add(kind, e, eager, list(t), ops)
                    if k: add(kind, e, eager, list(t), [o("input"), o("peek", 0), o("input"), o("peek", 0), o("advance", 0, 0, 9), o("input"), o("peek", 0)])
            for _ in range(250 if tier == "quick" else 8000):
                sizes = [rng.choice([0, 0, 1, 2, 3, 5, 8] + rng.choice([[], [], [rng.choice(lens)]])) for _ in range(rng.randrange(0, 6))]
                t = text(rng, e, sizes)
                if t and rng.random() < .5: t.pop()
                add(kind, e, eager, t, gen(rng, e, t, eager, rng.choice([5, 12, 30]), kind == "standard"))
    return callrun.suite(run, work, "c26", "Shell", calls, {"sh": SRC}, post=lambda r, o: [json.loads(x) for x in o], extra=("CXX=clang++", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"), mem_kb=0, consts="CONSTANTS\n First <- Start\n After <- Step\n Good <- Ok\n")
