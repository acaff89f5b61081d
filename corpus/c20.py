"""callbacks and sinks"""
import random, itertools
from gram import *
from vlib import *
import callrun
SRC = r'''
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>
#include <lexy/action/parse.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
namespace vf {
using units = std::vector<unsigned long>;
using strs  = std::vector<std::string>;
using fn    = strs (*)(const units&);
std::map<std::string, fn>& registry();
inline bool reg(const char* n, fn f) { registry()[n] = f; return true; }
// a value that can be told from its moved-from self
struct tok
{
    long v;
    constexpr tok(long v = 0) : v(v) {}
    constexpr tok(const tok& o) : v(o.v) {}
    constexpr tok(tok&& o) noexcept : v(o.v) { o.v = -999; }
    constexpr tok(tok a, tok b) : v(a.v * 100 + b.v) {}
    tok& operator=(const tok& o) { v = o.v; return *this; }
    tok& operator=(tok&& o) noexcept { auto x = o.v; o.v = -999; v = x; return *this; }
    friend bool operator<(const tok& a, const tok& b) { return a.v < b.v; }
    friend bool operator==(const tok& a, const tok& b) { return a.v == b.v; }
};
struct hash { std::size_t operator()(const tok& t) const { return std::size_t(t.v); } };
template <typename T> struct al
{
    using value_type = T;
    long id;
    al(long id = -5) : id(id) {}
    template <typename U> al(const al<U>& o) : id(o.id) {}
    T* allocate(std::size_t n) { return std::allocator<T>{}.allocate(n); }
    void deallocate(T* p, std::size_t n) { std::allocator<T>{}.deallocate(p, n); }
    template <typename U> friend bool operator==(const al& a, const al<U>& b) { return a.id == b.id; }
    template <typename U> friend bool operator!=(const al& a, const al<U>& b) { return a.id != b.id; }
};
struct app : private std::vector<tok>      // a container with append
{
    using base = std::vector<tok>;
    using base::value_type; using base::push_back; using base::begin; using base::end; using base::size; using base::empty;
    app() = default;
    app(const app&) = default; app(app&&) = default; app& operator=(const app&) = default; app& operator=(app&&) = default;
    void append(app&& o) { for (auto& x : o) push_back(std::move(x)); o.clear(); }
};
using vec = std::vector<tok>; using lst = std::list<tok>; using deq = std::deque<tok>;
using avec = std::vector<tok, al<tok>>; using alst = std::list<tok, al<tok>>;
using set = std::set<tok>; using mset = std::multiset<tok>; using uset = std::unordered_set<tok, hash>;
using aset = std::set<tok, std::less<tok>, al<tok>>;
struct agg3 { tok a, b, c; };
struct pr { tok a, b; pr(tok a, tok b) : a(std::move(a)), b(std::move(b)) {} };
struct ob { long b; tok d; tok add(tok x) const { return tok(b * 100 + x.v); } tok mod(tok x) { return tok(b * 100 + x.v); } };
struct state { long id; };
template <int N> struct setm { template <typename V> void operator()(agg3& g, V&& v) const { (N == 1 ? g.a : N == 2 ? g.b : g.c) = std::forward<V>(v); } };

inline void put(strs& r, long v) { r.push_back(std::to_string(v)); }
inline strs show(const tok& t) { return {"0", std::to_string(t.v)}; }
inline strs show(long v) { return {"0", std::to_string(v)}; }
inline strs show(std::size_t v) { return {"0", std::to_string(v)}; }
inline strs show(unsigned v) { return {"0", std::to_string(v)}; }
inline strs show(int v) { return {"0", std::to_string(v)}; }
inline strs show(signed char v) { return {"0", std::to_string(v)}; }
inline strs show(const agg3& g) { return {"3", std::to_string(g.a.v), std::to_string(g.b.v), std::to_string(g.c.v)}; }
inline strs show(const pr& g) { return {"3", std::to_string(g.a.v), std::to_string(g.b.v)}; }
template <typename C> strs showc(const C& c) { strs r{"1"}; for (auto& x : c) put(r, x.v); return r; }
template <typename C> strs showa(const C& c) { strs r{"9", std::to_string(c.get_allocator().id)}; for (auto& x : c) put(r, x.v); return r; }
inline strs show(const vec& c) { return showc(c); }
inline strs show(const lst& c) { return showc(c); }
inline strs show(const deq& c) { return showc(c); }
inline strs show(const app& c) { return showc(c); }
inline strs show(const set& c) { return showc(c); }
inline strs show(const mset& c) { return showc(c); }
inline strs show(const uset& c) { return showc(set(c.begin(), c.end())); }
inline strs show(const avec& c) { return showa(c); }
inline strs show(const alst& c) { return showa(c); }
inline strs show(const aset& c) { return showa(c); }
template <typename Ch> strs show(const std::basic_string<Ch>& s) { strs r{"5"}; for (auto c : s) put(r, long(std::make_unsigned_t<std::conditional_t<std::is_same_v<Ch, char32_t>, std::uint32_t, std::conditional_t<std::is_same_v<Ch, char16_t>, std::uint16_t, Ch>>>(c))); return r; }
template <typename Ch> strs show(std::basic_string_view<Ch> s) { return show(std::basic_string<Ch>(s)); }
template <typename Ch> strs show(const std::basic_string<Ch, std::char_traits<Ch>, al<Ch>>& s)
{ strs r = show(std::basic_string<Ch>(s.begin(), s.end())); r[0] = "12"; r.insert(r.begin() + 1, std::to_string(s.get_allocator().id)); return r; }
template <typename T> strs show(const std::unique_ptr<T>& p) { return p ? show(*p) : strs{"-1"}; }
template <typename T> strs show(T* p) { auto r = show(*p); delete p; return r; }
template <typename F> strs res(F f) { if constexpr (std::is_void_v<decltype(f())>) { f(); return {"4"}; } else return show(f()); }
inline strs operator+(strs a, const strs& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline strs sized(strs s) { return strs{std::to_string(s.size())} + s; }

struct rd
{
    const units& u; std::size_t p = 0;
    long num() { return long(u.at(p++)); }
    tok i() { return tok(num()); }
    template <typename C> C l() { C c; auto n = num(); while (n--) c.push_back(tok(num())); return c; }
    template <typename Ch> std::basic_string<Ch> s() { std::basic_string<Ch> c; auto n = num(); while (n--) c.push_back(Ch(num())); return c; }
};
template <typename E, typename S> auto lex(const S& s)
{ using R = lexy::input_reader<lexy::string_input<E>>; auto p = reinterpret_cast<const typename E::char_type*>(s.data()); return lexy::lexeme<R>(p, p + s.size()); }
template <typename E, typename Ch> auto lexl(const std::list<Ch>& s)
{ using R = lexy::input_reader<lexy::range_input<E, typename std::list<Ch>::const_iterator>>; return lexy::lexeme<R>(s.begin(), s.end()); }

inline long md(long a) { return ((a % 99991) + 99991) % 99991; }
inline long dec(long a, std::initializer_list<long> x) { for (auto v : x) a = md(a * 10 + v); return a; }
inline long alt(long a, std::initializer_list<long> x) { for (auto v : x) a = md(v - 3 * a); return a; }
#define OVERLOADS(N, F) \
struct N { using return_type = tok; tok operator()() const { return F({}); } tok operator()(tok a) const { return F({a.v}); } \
    tok operator()(tok a, tok b) const { return F({a.v, b.v}); } tok operator()(tok a, tok b, tok c) const { return F({a.v, b.v, c.v}); } \
    tok operator()(tok a, tok b, tok c, tok d) const { return F({a.v, b.v, c.v, d.v}); } \
    tok operator()(tok a, tok b, tok c, tok d, tok e) const { return F({a.v, b.v, c.v, d.v, e.v}); } };
#define DEC(...) dec(7, std::initializer_list<long> __VA_ARGS__)
inline long f7(std::initializer_list<long> x) { return dec(7, x); }
inline long f1(std::initializer_list<long> x) { return alt(1, x); }
OVERLOADS(decf, f7)
OVERLOADS(altf, f1)
struct negf { using return_type = tok; tok operator()(tok a) const { return tok(-a.v); } };
struct lenf { using return_type = tok; template <typename C> tok operator()(C&& c) const { auto x = std::forward<C>(c); return tok(long(std::distance(x.begin(), x.end()))); } };
struct hashf { using return_type = tok; template <typename C> tok operator()(C&& c) const { auto x = std::forward<C>(c); long a = 5; for (auto& v : x) a = md(v.v - 3 * a); return tok(a); }
  tok operator()(tok a) const { return tok(md(a.v - 15)); } };
struct pairf { using return_type = pr; pr operator()(tok a, tok b) const { return pr(std::move(a), std::move(b)); } };
inline long kindof(const tok&) { return 0; } inline long kindof(const vec&) { return 1; } inline long kindof(const lexy::nullopt&) { return 2; } inline long kindof(const state&) { return 0; }
struct kindsf { using return_type = vec; template <typename... A> vec operator()(A&&... a) const { vec r; (r.push_back(tok(kindof(a))), ...); return r; } };
// sinks of the harness
struct sink2
{
    struct cb { tok acc; using return_type = tok; void operator()(tok a) { acc = tok(dec(7, {acc.v, a.v})); } tok finish() && { return std::move(acc); } };
    auto sink(tok a, tok b) const { return cb{tok(a.v - 3 * b.v)}; }
};
inline tok altip(tok& acc, std::initializer_list<long> x) { long a = md(acc.v - 3); for (auto v : x) a = md(v - 3 * a); acc = tok(a); return acc; }
struct err { using return_type = void; template <typename... A> void operator()(const A&...) const {} };
struct dig { static constexpr auto rule = lexy::dsl::capture(lexy::dsl::ascii::digit); static constexpr auto value = lexy::callback<tok>([](auto lex) { return tok(lex[0] - '0'); }); };
template <typename G, typename S> strs parsed(rd& r, S& st)
{
    auto in = r.s<char>();
    auto result = lexy::parse<G>(lexy::string_input<lexy::utf8_char_encoding>(in.data(), in.size()), st, err{});
    if (!result.has_value()) return {"-7"};
    if constexpr (std::is_void_v<typename decltype(result)::value_type>) return {"4"}; else return show(std::move(result).value());
}
template <typename G> strs parsed(rd& r)
{
    auto in = r.s<char>();
    auto result = lexy::parse<G>(lexy::string_input<lexy::utf8_char_encoding>(in.data(), in.size()), err{});
    if (!result.has_value()) return {"-7"};
    if constexpr (std::is_void_v<typename decltype(result)::value_type>) return {"4"}; else return show(std::move(result).value());
}
namespace dsl = lexy::dsl; using namespace lexy::placeholders; using lexy::operator|; using lexy::operator>>;
%s
}
'''
class X:
    def __init__(self, cpp, st=False, out=None, **j): self.cpp, self.j, self.st, self.out = cpp, j, st, out
TAB = {str(ord(c)): ord(f) for c, f in [("A", "a"), ("B", "b"), ("Z", "z"), ("À", "à"), ("Ä", "ä"), ("É", "é"), ("Σ", "σ"), ("ς", "σ"), ("ẞ", "ß"), ("\u212A", "k"), ("\u2C62", "\u026B"), ("\U00010400", "\U00010428"), ("\U0001E900", "\U0001E922"), ("ſ", "s"), ("Ω", "ω"), ("\u2126", "ω")]}
FN = {"dec": "decf{}", "alt": "altf{}", "neg": "negf{}", "len": "lenf{}", "hash": "hashf{}", "pair": "pairf{}", "kinds": "kindsf{}"}
def fn_(f): return X(FN[f], k="fn", f=f)
PROGRAMS = random.Random(20)
class Gen:
    def __init__(self): self.progs, self.calls, self.n = [], [], 0
    def name(self): self.n += 1; return "p%d" % self.n
    # one argument: C++ statements creating a<k>, expression(s) to pass, and a maker of (units, values)
    def arg(self, k, t, env):
        a = "a%s" % k
        ch, enc = env.get("ch", "char"), env.get("enc", "lexy::utf8_encoding")
        return {"i": ("auto %s = r.i();" % a, a), "I": ("auto %s = static_cast<%s>(r.num());" % (a, env.get("int", "long")), a), "l": ("auto %s = r.l<%s>();" % (a, env.get("cont", "vec")), a),
                "n": ("lexy::nullopt %s;" % a, a), "+": ("lexy::plus_sign %s;" % a, a), "-": ("lexy::minus_sign %s;" % a, a),
                "1": ("lexy::member<setm<1>> %s;" % a, a), "2": ("lexy::member<setm<2>> %s;" % a, a), "3": ("lexy::member<setm<3>> %s;" % a, a),
                "g": ("agg3 %s; %s.a = r.i(); %s.b = r.i(); %s.c = r.i();" % (a, a, a, a), a), "o": ("ob %s{r.num(), tok(0)};" % a, a), "d": ("ob %s{1, r.i()};" % a, a),
                "A": ("al<%s> %s(r.num());" % (env.get("at", "tok"), a), a),
                "s": ("auto %s = r.s<%s>();" % (a, ch), a), "c": ("auto %s = %s(r.num());" % (a, ch), a), "p": ("auto %s = lexy::code_point(char32_t(r.num()));" % a, a),
                "x": ("auto s%s = r.s<%s>(); auto %s = lex<%s>(s%s);" % (a, ch, a, enc, a), a),
                "y": ("auto s%s = r.s<%s>(); std::list<%s> l%s(s%s.begin(), s%s.end()); auto %s = lexl<%s>(l%s);" % (a, ch, ch, a, a, a, a, enc, a), a),
                "r": ("auto s%s = r.s<%s>(); auto %s = s%s.begin(); auto e%s = s%s.end();" % (a, ch, a, a, a, a), "%s, e%s" % (a, a))}[t]
    def data(self, t, rng, env):
        """(units, value)"""
        if t == "I" and "16" in env.get("int", ""): v = rng.choice([0, 1, 255, 256, 32767] + ([32768, 65535, 65534, rng.randrange(65536)] if "uint" in env["int"] else [])); return [v], [0, v]
        if t in "iIAod": v = rng.randint(0, 9); return [v], [0, v]
        if t == "l": n = rng.choice([0, 0, 1, 1, 2, 3, 5, 9]); v = [rng.randint(0, 9) for _ in range(n)]; return [n] + v, [1] + v
        if t == "n": return [], [2]
        if t == "+": return [], [6]
        if t == "-": return [], [7]
        if t in "123": return [], [8, int(t)]
        if t == "g": v = [rng.randint(0, 9) for _ in range(3)]; return v, [3] + v
        txt = env.get("text", "abXY")
        if t == "c":
            v = enc_units(rng.choice([c for c in txt if len(enc_units(c, env["e"])) == 1]), env["e"])[0]; return [v], [5, v]
        if t == "p": v = ord(rng.choice(txt)); return [v], [10, v]
        v = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 7, 20])): v += enc_units(rng.choice(txt), env["e"]) if rng.random() < env.get("good", 1) else [rng.choice(env["bad"])]
        return [len(v)] + v, [5] + v
    def call(self, x, sig, rng, env={}, mode="call", count=4, st=None):
        st = x.st if st is None else st
        nm = self.name()
        decl = [self.arg(i, t, env) for i, t in enumerate(sig)]
        pre = "rd r{u}; %s " % ("state st{r.num()};" if not x.st == "al" else "al<tok> st(r.num());") + " ".join(d for d, _ in decl) + " const auto cb = %s;" % x.cpp
        f = "cb[st]" if st else "cb"
        lv = mode == "lv"
        args = ", ".join((e if lv or t == "r" else "std::move(%s)" % e) for (_, e), t in zip(decl, sig))
        body = "res([&]() -> decltype(auto) { return %s(%s); })" % (f, args)
        if lv: body = "auto out = " + body + "; return out" + "".join(" + sized(show(%s))" % e for _, e in decl)
        else: body = "return " + body
        self.progs.append('static bool b%s = reg("%s", [](const units& u) -> strs { %s (void)st; %s; });' % (nm, nm, pre, body))
        for _ in range(count if sig else 1):
            s = rng.randint(1, 9)
            d = [self.data(t, rng, env) for t in sig]
            self.calls.append(("%s %s" % (nm, " ".join(map(str, [s] + sum((a for a, _ in d), [])))), {"m": mode, "x": x.j, "i": [v for _, v in d], "st": s}))
    def sink(self, x, alts, rng, env={}, make=".sink()", count=12):
        nm = self.name()
        cases = ""
        for k, sig in enumerate(alts):
            decl = [self.arg(i, t, env) for i, t in enumerate(sig)]
            cases += "case %d: { %s cb(%s); break; } " % (k, " ".join(d for d, _ in decl), ", ".join((e if t == "r" else "std::move(%s)" % e) for (_, e), t in zip(decl, sig)))
        pre = "rd r{u}; %s (void)st; const auto s = %s; auto cb = s%s; auto n = r.num(); while (n--) { switch (r.num()) { %s } }" % ("state st{r.num()};" if x.st != "al" else "al<tok> st(r.num());", x.cpp, make, cases)
        self.progs.append('static bool b%s = reg("%s", [](const units& u) -> strs { %s return res([&]() -> decltype(auto) { return std::move(cb).finish(); }); });' % (nm, nm, pre))
        for j in range(count):
            s = rng.randint(1, 9)
            n = j if j < 5 else rng.choice([3, 4, 6, 9, 17, 40])
            u, items = [s, n], []
            for _ in range(n):
                k = rng.randrange(len(alts))
                d = [self.data(t, rng, env) for t in alts[k]]
                u += [k] + sum((a for a, _ in d), []); items.append([v for _, v in d])
            self.calls.append(("%s %s" % (nm, " ".join(map(str, u))), {"m": "sink", "x": x.j, "i": items, "st": s}))
    def parse_list(self, x, rng, opt, count=8):
        nm = self.name()
        rule = "dsl::list(dsl::p<dig>, dsl::sep(dsl::lit_c<','>))"
        if opt == 2: rule = "dsl::terminator(dsl::eof).opt_list(dsl::peek(dsl::ascii::digit) >> dsl::p<dig>, dsl::sep(dsl::lit_c<','>))"
        elif opt: rule = "dsl::opt(dsl::peek(dsl::ascii::digit) >> %s)" % rule
        self.progs.append('struct g%s { static constexpr auto rule = %s; static constexpr auto value = %s; };' % (nm, rule if opt == 2 else rule + " + dsl::eof", x.cpp))
        stt = "al<tok> st(r.num());" if x.st == "al" else "state st{r.num()};"
        self.progs.append('static bool b%s = reg("%s", [](const units& u) -> strs { rd r{u}; %s (void)st; return parsed<g%s>(r%s); });' % (nm, nm, stt, nm, ", st" if x.st else ""))
        for j in range(count):
            s = rng.randint(1, 9)
            n = j if j < 4 else rng.choice([3, 5, 8, 30])
            if n == 0 and not opt: n = 2
            v = [rng.randint(0, 9) for _ in range(n)]
            txt = ",".join(map(str, v)).encode()
            self.calls.append(("%s %s" % (nm, " ".join(map(str, [s, len(txt)] + list(txt)))), {"m": "both", "x": x.j, "i": [[[0, d]] for d in v], "st": s, "opt": int(bool(opt))}))
    def parse_opts(self, x, rng):
        nm = self.name()
        self.progs.append('struct g%s { static constexpr auto rule = dsl::p<dig> + dsl::opt(dsl::lit_c<\',\'> >> dsl::p<dig>) + dsl::opt(dsl::lit_c<\';\'> >> dsl::p<dig>) + dsl::eof; static constexpr auto value = %s; };' % (nm, x.cpp))
        self.progs.append('static bool b%s = reg("%s", [](const units& u) -> strs { rd r{u}; state st{r.num()}; (void)st; return parsed<g%s>(r%s); });' % (nm, nm, nm, ", st" if x.st else ""))
        for a, b in itertools.product((0, 1), repeat=2):
            s, v = rng.randint(1, 9), [rng.randint(0, 9) for _ in range(3)]
            txt = ("%d%s%s" % (v[0], ",%d" % v[1] if a else "", ";%d" % v[2] if b else "")).encode()
            self.calls.append(("%s %s" % (nm, " ".join(map(str, [s, len(txt)] + list(txt)))), {"m": "call", "x": x.j, "i": [[0, v[0]], [0, v[1]] if a else [2], [0, v[2]] if b else [2]], "st": s}))
ALOC = '.allocator([](const state& s) { return al<tok>(s.id + 20); })'
def as_list(c): return X("lexy::as_list<%s>" % c, k="list")
def as_coll(c): return X("lexy::as_collection<%s>" % c, k="mset" if c == "mset" else "set")
def concat(c): return X("lexy::concat<%s>" % c, k="concat")
def comp(a, b): return X("(%s | %s)" % (a.cpp, b.cpp), st=a.st or b.st, k="comp", a=a.j, c=b.j)
def sc(s, c): return X("(%s >> %s)" % (s.cpp, c.cpp), st=s.st or c.st, k="sc", s=s.j, c=c.j)
def sfn(f): return X("lexy::callback_with_state<tok>([](const state& s, auto&&... a) { return %s(tok(s.id), std::forward<decltype(a)>(a)...); })" % FN[f], st=True, k="sfn", f=f)
def string(ch, enc, e, fold=""):
    f = {"": "", "ascii": ".case_folding(dsl::ascii::case_folding)", "unicode": ".case_folding(dsl::unicode::simple_case_folding)"}[fold]
    return X("lexy::as_string<std::basic_string<%s>, %s>%s" % (ch, enc, f), k="string", e=e, fold=fold, tab=TAB)
def gstring(ch, enc, e, fold="", al=0):
    f = {"": "", "ascii": ".case_folding(dsl::ascii::case_folding)", "unicode": ".case_folding(dsl::unicode::simple_case_folding)"}[fold]
    return X("lexy::as_string<std::basic_string<%s, std::char_traits<%s>, al<%s>>, %s>%s" % (ch, ch, ch, enc, f), k="gstring", e=e, fold=fold, tab=TAB, al=al)
def bind(cb, bs):
    cpp, j, st = [], [], False
    for b in bs:
        if b[0] == "const": cpp.append("tok(%d)" % b[1]); j.append({"k": "const", "v": b[1]})
        elif b[0] == "all": cpp.append("lexy::values"); j.append({"k": "all"})
        elif b[0] == "state":
            st = True
            m = {"": "[](const state& s) { return tok(s.id); }", "neg": "[](const state& s) { return tok(-s.id); }"}[b[1]]
            cpp.append("lexy::parse_state.map(%s)" % m); j.append({"k": "state", "map": b[1]})
        else:
            _, n, orv, mp, style = b
            c = ("lexy::nth_value<%d>" if style % 3 == 0 else "_%d") % n
            o = "" if orv == -1 else ".or_default()" if orv == 0 and style % 2 else ".or_(tok(%d))" % orv
            if o.startswith(".or_(") and style % 3 == 2 and not mp: c, o = "(%s || tok(%d))" % (c, orv), ""
            m = ".map(negf{})" if mp else ""
            cpp.append(c + (o + m if style % 2 else m + o)); j.append({"k": "nth", "n": n, "or": orv, "map": mp})
    return X("lexy::bind(%s, %s)" % (cb.cpp, ", ".join(cpp)), st=st, k="bind", cb=cb.j, b=j)
ENC = {"u8": ("char", "lexy::utf8_encoding", "utf8"), "u8c": ("char", "lexy::utf8_char_encoding", "utf8"), "ascii": ("char", "lexy::ascii_encoding", "ascii"), "u16": ("char16_t", "lexy::utf16_encoding", "utf16"), "u32": ("char32_t", "lexy::utf32_encoding", "utf32")}
TEXT = {"ascii": "abzABZ01@[`{", "utf8": "abzABZ@[ÄäÉßẞΣςσ\u212A\u2C62\U00010400\U0001E900ſ\u2126€😀"}
def suite(run, work, dev=False):
    seed, tier = (run.seed, run.tier) if run else ("1", "quick")
    rng = random.Random("c20" + seed)
    PROGRAMS.seed(20)
    deep = 1 if tier == "quick" else 12
    g = Gen()
    # containers
    for c in ("vec", "lst", "deq", "app") :
        for sig in ("i", "ii", "iii", "iiii") if c != "app" else ():
            g.call(as_list(c), sig, rng, {"cont": c}); g.call(as_list(c), sig, rng, {"cont": c}, mode="lv", count=2)
        if c != "app":
            for sig in ("l", "n"): g.call(as_list(c), sig, rng, {"cont": c})
            g.sink(as_list(c), ["i"], rng, count=12 * deep); g.sink(as_list(c), ["i", "ii"], rng, count=12 * deep)
            for o in (0, 1, 2): g.parse_list(as_list(c), rng, o)
        for sig in ("", "n", "l", "ll", "lll", "llll"): g.call(concat(c), sig, rng, {"cont": c}, count=8 * deep)
        g.sink(concat(c), ["l"], rng, {"cont": c}, count=24 * deep)
    for c in ("set", "mset", "uset"):
        for sig in ("i", "ii", "iii", "iiii", "n"): g.call(as_coll(c), sig, rng, count=6)
        g.call(as_coll(c), "iii", rng, mode="lv")
        g.sink(as_coll(c), ["i"], rng)
        if c == "set": g.sink(as_coll(c), ["i", "ii"], rng)
        for o in (0, 1, 2): g.parse_list(as_coll(c), rng, o)
    for c in ("avec", "alst"):
        for sig in ("A", "Ai", "Aii", "Aiii"): g.call(X("lexy::as_list<%s>" % c, k="galist"), sig, rng)
        a = X("lexy::as_list<%s>%s" % (c, ALOC), st=True, k="alist", off=20)
        b = X("lexy::as_list<%s>.allocator()" % c, st="al", k="alist", off=0)
        for x in (a, b):
            for sig in ("n", "i", "ii", "iii"): g.call(x, sig, rng)
            g.sink(x, ["i"], rng, make=".sink(st)")
            for o in (0, 1, 2): g.parse_list(x, rng, o)
        g.sink(X("lexy::as_list<%s>" % c, k="galist", al=7), ["i"], rng, make=".sink(al<tok>(7))")
    for sig in ("A", "Ai", "Aii", "Aiii"): g.call(X("lexy::as_collection<aset>", k="gaset"), sig, rng)
    a = X("lexy::as_collection<aset>" + ALOC, st=True, k="aset", off=20)
    b = X("lexy::as_collection<aset>.allocator()", st="al", k="aset", off=0)
    for x in (a, b):
        for sig in ("n", "i", "ii", "iii"): g.call(x, sig, rng)
        g.sink(x, ["i"], rng, make=".sink(st)")
        for o in (0, 1, 2): g.parse_list(x, rng, o)
    g.sink(X("lexy::as_collection<aset>", k="gaset", al=7), ["i"], rng, make=".sink(al<tok>(7))")
    # collecting, folding, counting
    for c in ("vec", "lst"): g.sink(X("lexy::collect<%s>(decf{})" % c, k="collect", cb=fn_("dec").j), ["i", "ii", "iii"], rng)
    g.sink(X("lexy::collect<avec>(altf{})", k="gcollect", cb=fn_("alt").j, al=4), ["i", "ii"], rng, make=".sink(al<tok>(4))")
    g.sink(X("lexy::collect(lexy::noop)", k="vcollect"), ["i", "ii", "l"], rng)
    g.sink(X("lexy::collect(lexy::callback([](tok) {}, [](tok, tok) {}))", k="vcollect"), ["i", "ii"], rng)
    g.sink(X("lexy::count", k="count"), ["i", "", "ii", "l", "n"], rng)
    F = [X("lexy::fold<tok>(4, altf{})", k="fold", f="alt", init=4), X("lexy::fold<tok>(tok(5), [](tok a, tok b) { return altf{}(std::move(a), std::move(b)); }, [](tok a, tok b, tok c) { return altf{}(a, b, c); })", k="fold", f="alt", init=5),
         X("lexy::fold<tok>([] { return tok(6); }, altf{})", k="fold", f="alt", init=6),
         X("lexy::fold_inplace<tok>(3, [](tok& a, tok b) { altip(a, {b.v}); }, [](tok& a, tok b, tok c) { altip(a, {b.v, c.v}); })", k="foldip", f="alt", init=3),
         X("lexy::fold_inplace<tok>([] { return tok(8); }, [](tok& a, tok b) { altip(a, {b.v}); }, [](tok& a, tok b, tok c) { altip(a, {b.v, c.v}); })", k="foldip", f="alt", init=8)]
    for x in F:
        g.sink(x, ["i", "ii"], rng); g.parse_list(x, rng, 0)
        for sig in ("i", "ii", "iii"): g.call(X("lexy::callback(%s)" % x.cpp, k="sink", s=x.j), sig, rng)
    for s in (as_list("vec"), as_coll("set"), X("lexy::count", k="count"), X("lexy::collect<vec>(decf{})", k="collect", cb=fn_("dec").j)):
        for sig in ("i", "ii", "iii"): g.call(X("lexy::callback(%s)" % s.cpp, k="sink", s=s.j), sig, rng)
    for sig in ("l", "ll", "lll"): g.call(X("lexy::callback(lexy::concat<vec>)", k="sink", s={"k": "concat"}), sig, rng) if False else None
    # objects
    for pre, post in (("lexy::construct<%s>", ""), ("lexy::new_<%s>", ""), ("lexy::new_<%s, std::unique_ptr<%s>>", "")):
        t = lambda n: pre % ((n,) * pre.count("%s"))
        g.call(X(t("pr"), k="fn", f="pair"), "ii", rng); g.call(X(t("pr"), k="fn", f="pair"), "ii", rng, mode="lv")
        for sig in ("", "i", "ii", "iii", "g"): g.call(X(t("agg3"), k="agg"), sig, rng)
        g.call(X(t("agg3"), k="agg"), "g", rng, mode="lv"); g.call(X(t("agg3"), k="agg"), "iii", rng, mode="lv")
        g.call(X(t("tok"), k="fwd"), "i", rng, mode="lv"); g.call(X(t("tok"), k="fn", f="mul"), "ii", rng)
        g.call(X(t("vec"), k="fwd"), "l", rng, mode="lv"); g.call(X(t("vec"), k="fwd"), "l", rng)
    g.call(X("lexy::construct<void>", k="noop"), "", rng)
    g.call(X("lexy::forward<tok>", k="fwd"), "i", rng); g.call(X("lexy::forward<tok>", k="fwd"), "i", rng, mode="lv"); g.call(X("lexy::forward<vec>", k="fwd"), "l", rng); g.call(X("lexy::forward<vec>", k="fwd"), "l", rng, mode="lv")
    g.call(X("lexy::forward<void>", k="fwd"), "", rng); g.call(X("lexy::forward<void>", k="fwd"), "n", rng)
    g.sink(X("lexy::forward<void>", k="fwd"), ["", "n"], rng, count=3); g.sink(X("lexy::noop", k="noop"), ["", "i", "l", "n"], rng, count=3)
    g.call(X("lexy::constant(42)", k="const", v=42), "", rng); g.call(X("lexy::constant(tok(17))", k="const", v=17), "", rng)
    for sig in ("", "i", "il", "nn"): g.call(X("lexy::noop", k="noop"), sig, rng)
    for t in ("int", "long", "signed char"):
        for sig in ("I", "+I", "-I"): g.call(X("lexy::as_integer<%s>" % t, k="int"), sig, rng, {"int": t})
    for sig in ("n", "g", "1i", "2i", "3i", "1i2i3i", "3i1i", "2i2i", "1i3i1i", "g2i", "g3i1i"): g.call(X("lexy::as_aggregate<agg3>", k="aggr"), sig, rng)
    g.sink(X("lexy::as_aggregate<agg3>", k="aggr"), ["1i", "2i", "3i"], rng)
    g.call(X("lexy::bit_cast<std::int16_t>", k="fn", f="i16"), "I", rng, {"int": "std::uint16_t"}, count=20); g.call(X("lexy::bit_cast<std::uint16_t>", k="fwd"), "I", rng, {"int": "std::int16_t"})
    g.call(X("lexy::mem_fn(&ob::add)", k="fn", f="mul"), "oi", rng); g.call(X("lexy::mem_fn(&ob::d)", k="fwd"), "d", rng)
    # strings
    for n, (ch, enc, e) in ENC.items():
        env = {"ch": ch, "enc": enc, "e": e, "text": TEXT["ascii" if e == "ascii" else "utf8"], "at": ch}
        for fold in ("", "ascii", "unicode"):
            if fold == "unicode" and (e == "ascii" or n == "u8c"): continue
            x, ga, gs = string(ch, enc, e, fold), gstring(ch, enc, e, fold), gstring(ch, enc, e, fold, 6)
            for sig in ("n", "s", "x", "y", "r", "p"):
                if n == "u8" and sig == "y": continue
                g.call(x, sig, rng, env, count=1 if sig == "n" else 6)
            for sig in ("Ax", "Ar", "Ap"): g.call(ga, sig, rng, env, count=4)
            g.sink(x, ["c", "s", "x", "r", "p"], rng, env); g.sink(x, ["c"], rng, env)
            g.sink(gs, ["c", "x", "r", "p"], rng, env, make=".sink(al<%s>(6))" % ch)
        if n != "u8": g.call(X("lexy::as_string<std::basic_string_view<%s>, %s>" % (ch, enc), k="string", e=e, fold="", tab=TAB), "x", rng, env)
        env2 = dict(env, good=0.7, bad={"utf8": [0x80, 0xC3, 0xE2, 0xF0, 0xED], "utf16": [0xD83D, 0xDE00], "utf32": [0xD800, 0x110000], "ascii": [0x80, 0xC1]}[e])
        for fold in ("", "ascii") + (("unicode",) if e in ("utf8", "utf16") and n != "u8c" else ()): g.call(string(ch, enc, e, fold), "s", rng, env2, count=20 * deep)
    # binding
    for sig in ("", "i", "ii", "iii", "iiii", "n", "in", "ni", "nii", "ini", "nin"):
        for k in range(4 if sig else 2):
            g.call(bind(fn_("dec" if k % 2 else "alt"), rand_binds(rng, sig, k)), sig, rng, count=2)
    for sig in ("i", "in", "ni", "li", "nl"):
        g.call(bind(fn_("kinds"), [("all",)]), sig, rng, count=1); g.call(bind(fn_("kinds"), [("const", 3), ("all",), ("const", 4)]), sig, rng, count=1)
    for k in range(12): g.parse_opts(bind(fn_("dec" if k % 2 else "alt"), rand_binds(rng, "inn", k)), rng)
    g.parse_opts(bind(fn_("kinds"), [("all",), ("const", 1)]), rng)
    for s in ("ii", "iii"):
        g.call(sfn("dec"), s, rng); g.call(sfn("alt"), s, rng)
    for b in ([("const", 3), ("const", 4)], [("const", 2), ("state", "")], [("state", "neg"), ("state", "")], [("state", ""), ("const", 5)]):
        x = X("lexy::bind_sink(sink2{}, %s)" % ", ".join("tok(%d)" % y[1] if y[0] == "const" else "lexy::parse_state.map([](const state& s) { return tok(%ss.id); })" % ("-" if y[1] else "") for y in b), st=any(y[0] == "state" for y in b),
              k="bfold", f="dec", b=[{"k": "const", "v": y[1]} if y[0] == "const" else {"k": "state", "map": y[1]} for y in b])
        g.sink(x, ["i"], rng, make=".sink(st)" if x.st else ".sink()"); g.parse_list(x, rng, 0)
    g.sink(X("lexy::bind_sink(lexy::as_list<avec>, al<tok>(3))", k="galist", al=3), ["i"], rng)
    # composition
    for a, b, sig, env in [(fn_("dec"), fn_("neg"), "ii", {}), (as_list("vec"), fn_("len"), "iii", {}), (as_list("vec"), fn_("hash"), "iii", {}), (as_coll("set"), fn_("hash"), "iiii", {}), (concat("vec"), fn_("hash"), "lll", {}), (concat("lst"), fn_("len"), "ll", {"cont": "lst"}),
                           (as_list("vec"), as_list("vec"), "ii", {}), (fn_("neg"), as_list("vec"), "i", {}), (fn_("pair"), X("lexy::forward<pr>", k="fwd"), "ii", {}), (X("lexy::constant(tok(9))", k="const", v=9), fn_("dec"), "", {}),
                           (sfn("dec"), fn_("neg"), "ii", {}), (fn_("alt"), sfn("dec"), "ii", {}), (sfn("alt"), sfn("dec"), "i", {}), (bind(fn_("dec"), [("nth", 2, -1, "", 1), ("nth", 1, -1, "", 1)]), fn_("neg"), "ii", {}),
                           (bind(fn_("dec"), [("state", ""), ("nth", 1, 5, "", 1)]), fn_("neg"), "i", {}), (fn_("dec"), bind(fn_("alt"), [("const", 8), ("nth", 1, -1, "neg", 1)]), "iii", {})]:
        x = comp(a, b)
        g.call(x, sig, rng, env)
        if b.j.get("f") in ("neg", "dec") and not x.st: g.call(comp(x, fn_("alt")), sig, rng, env); g.call(comp(comp(x, fn_("neg")), fn_("alt")), sig, rng, env)
        if x.st and b.j["k"] != "l": g.call(comp(x, fn_("neg")), sig, rng, env)
    # sink >> callback
    nul = lambda f: X("lexy::callback<tok>([](lexy::nullopt) { return tok(7); }, %s)" % ("[](auto&& x) -> decltype(%s(vf::vec(std::move(x)))) { return %s(std::move(x)); }" % (FN[f], FN[f])), k="over", s=[[2], [1]], c=[{"k": "const", "v": 7}, {"k": "fn", "f": f}])
    for f in ("len", "hash"):
        x = sc(as_list("vec"), nul(f))
        g.sink(x, ["i"], rng); g.call(x, "l", rng); g.call(x, "n", rng)
        g.parse_list(x, rng, 1, 12)
        g.parse_list(comp_sc(x, fn_("neg")), rng, 1, 12)
    g.parse_list(sc(as_list("vec"), fn_("hash")), rng, 0); g.parse_list(sc(as_coll("mset"), fn_("hash")), rng, 0); g.parse_list(sc(X("lexy::count", k="count"), X("lexy::callback<tok>([](std::size_t n) { return tok(-long(n)); })", k="fn", f="neg")), rng, 0)
    g.parse_list(sc(F[0], fn_("neg")), rng, 0); g.parse_list(sc(F[3], sfn("dec")), rng, 0)
    g.parse_list(sc(X("lexy::as_list<avec>" + ALOC, st=True, k="alist", off=20), X("lexy::forward<avec>", k="fwd")), rng, 0)
    # overloads
    o = X("lexy::callback<tok>([](tok a) { return tok(md(a.v - 15)); }, [](vec&& a) { return lenf{}(std::move(a)); }, [](lexy::nullopt) { return tok(31); }, [](tok a, tok b) { return tok(std::move(a), std::move(b)); })", k="over", s=[[0], [1], [2], [0, 0]],
          c=[{"k": "fn", "f": "hash"}, {"k": "fn", "f": "len"}, {"k": "const", "v": 31}, {"k": "fn", "f": "mul"}])
    for sig in ("i", "l", "n", "ii"): g.call(o, sig, rng)
    o = X("lexy::callback(negf{}, pairf{} | lexy::callback<tok>([](pr p) { return tok(p.a.v * 100 + p.b.v); }), lexy::constant(tok(13)))", k="over", s=[[0], [0, 0], []], c=[{"k": "fn", "f": "neg"}, {"k": "fn", "f": "mul"}, {"k": "const", "v": 13}])
    for sig in ("i", "", "ii"): g.call(o, sig, rng)
    per = 90
    decls = g.progs
    chunks, cur = [], []
    for d in decls:
        cur.append(d)
        if len(cur) >= per and not d.startswith("struct"): chunks.append(cur); cur = []
    if cur: chunks.append(cur)
    src = {"cb%d" % i: SRC.replace("%s\n}\n", "\n".join(c) + "\n}\n") for i, c in enumerate(chunks)}
    return callrun.suite(run, work, "c20", "Callbacks", g.calls, src, post=lambda r, o: [int(v) for v in o], opt="-O0", extra=("CXX=clang++", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"), mem_kb=0)
def comp_sc(x, b): return X("((%s) | %s)" % (x.cpp, b.cpp), st=x.st or b.st, k="sc", s=x.j["s"], c={"k": "comp", "a": x.j["c"], "c": b.j})
def rand_binds(rng, sig, k):
    out, rng = [], PROGRAMS      # the programs do not depend on the seed
    for _ in range(rng.randint(1, 4)):
        c = rng.random()
        if c < 0.2: out.append(("const", rng.randint(0, 9)))
        elif c < 0.35 and k % 2: out.append(("state", rng.choice(["", "neg"])))
        elif c < 0.45 and sig and "n" not in sig and len(out) + len(sig) <= 3 and not any(o[0] in ("all", "nth") for o in out): out.append(("all",)); return out
        else:
            used = [o[1] for o in out if o[0] == "nth"]
            free = [i for i in range(1, len(sig) + 3) if i not in used]
            if not free: out.append(("const", rng.randint(0, 9))); continue
            n = rng.choice(free)
            must = n > len(sig) or sig[n-1] == "n"
            out.append(("nth", n, rng.choice([0, 5, 8]) if must or rng.random() < .3 else -1, rng.choice(["", "neg"]), rng.randint(0, 5)))
    # a map of a value that might not be there needs the fallback
    return out
