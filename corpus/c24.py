"""parse trees: builder histories, navigation, algorithms"""
import random, json
from gram import *
from vlib import *
import callrun
SRC = r'''
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/parse_tree.hpp>
#include <lexy_ext/parse_tree_algorithm.hpp>
#include <list>
#include <map>
#include <optional>
#include <string>
#include <vector>
namespace vf {
using units = std::vector<unsigned long>;
using fn    = std::vector<std::string> (*)(const units&);
std::map<std::string, fn>& registry();
using strs = std::vector<std::string>;
inline bool reg(const char* n, fn f) { registry()[n] = f; return true; }
enum class tk { a, b };
const char* token_kind_name(tk k) { return k == tk::a ? "a" : "b"; }
struct A { static constexpr auto name = "A"; static constexpr auto rule = lexy::dsl::any; };
struct B { static constexpr auto name = "B"; static constexpr auto rule = lexy::dsl::any; };
struct T : lexy::token_production { static constexpr auto name = "T"; static constexpr auto rule = lexy::dsl::any; };
struct H : lexy::transparent_production { static constexpr auto name = "H"; static constexpr auto rule = lexy::dsl::any; };
struct res
{
    std::map<void*, std::size_t> live; long errors = 0;
    void* allocate(std::size_t n, std::size_t) { auto p = std::malloc(n); live[p] = n; return p; }
    void deallocate(void* p, std::size_t n, std::size_t) noexcept { auto it = live.find(p); if (it == live.end() || it->second != n) { ++errors; return; } live.erase(it); std::free(p); }
    friend bool operator==(const res& a, const res& b) noexcept { return &a == &b; }
};
template <typename Input> struct H_
{
    using reader = lexy::input_reader<Input>;
    using it = typename reader::iterator;
    using tree = lexy::parse_tree<reader, tk, res>;
    using node = typename tree::node;
    std::vector<it> at;
    static std::string q(const char* s) { return "\"" + std::string(s) + "\""; }
    static std::string b(bool x) { return x ? "true" : "false"; }
    long pos(it i) const { for (std::size_t k = 0; k < at.size(); ++k) if (at[k] == i) return long(k); return -1; }
    static std::string join(const std::vector<long>& v) { std::string r = "["; for (std::size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]); return r + "]"; }
    std::string show(const tree& t) const
    {
        if (t.empty()) return t.size() == 0 && t.traverse().empty() ? "{\"m\":\"empty\"}" : "{\"m\":\"bad\"}";
        std::vector<node> ns; std::map<void*, long> idx;
        std::vector<std::pair<node, int>> evs;
        for (auto [e, n] : t.traverse())
        {
            if (e != lexy::traverse_event::exit) { ns.push_back(n); idx[n.address()] = long(ns.size()); }
            evs.emplace_back(n, e == lexy::traverse_event::enter ? 0 : e == lexy::traverse_event::exit ? 1 : 2);
            if (evs.size() > 5000) return "{\"m\":\"endless\"}";
        }
        auto id = [&](node n) { auto f = idx.find(n.address()); return f == idx.end() ? -1l : f->second; };
        std::vector<long> ev; for (auto& [n, e] : evs) ev.push_back(3 * id(n) + e);
        std::string r = "{\"m\":\"tree\",\"size\":" + std::to_string(t.size()) + ",\"depth\":" + std::to_string(t.depth()) + ",\"rem\":" + join({pos(t.remaining_input().begin()), pos(t.remaining_input().end())}) + ",\"ev\":" + join(ev) + ",\"nodes\":[";
        bool solid = true;
        std::string last = "[", more = "[";
        for (auto n : ns) if (n.kind().is_production() && n.children().empty()) solid = false;
        long end = 0;
        for (std::size_t i = 0; i < ns.size(); ++i)
        {
            auto n = ns[i]; auto k = n.kind();
            auto lx = n.lexeme();
            std::vector<long> kids; for (auto c : n.children()) { kids.push_back(id(c)); if (kids.size() > 5000) break; }
            auto par = n.parent();
            bool ok = k.is_token() != k.is_production() && n.children().size() == kids.size() && n.children().empty() == kids.empty() && k == k && !(k != k) && n == n && (k.is_root() ? par == n : par != n);
            if (k.is_token()) { auto tok = n.token(); ok = ok && std::string(tok.name()) == k.name() && tok.lexeme().begin() == lx.begin() && tok.lexeme().end() == lx.end() && k == tok.kind() && !(k != tok.kind()) && !(k == A{}); end = std::max(end, pos(lx.end())); }
            else ok = ok && (k == A{}) == (std::string(k.name()) == "A") && (k == B{}) == (std::string(k.name()) == "B") && (k == T{}) == (std::string(k.name()) == "T") && lx.empty() && !(k == tk::a);
            if (i) { r += ","; last += ","; if (ns.size() <= 40) more += ","; }
            r += "[" + q(ok ? k.name() : "inconsistent") + "," + b(k.is_token()) + "," + b(k.is_root()) + "," + b(k.is_token_production()) + "," + std::to_string(k.is_token() ? pos(lx.begin()) : 0) + "," + std::to_string(k.is_token() ? pos(lx.end()) : 0) + ","
                 + std::to_string(k.is_root() ? 0 : id(par)) + "," + join(kids) + "]";
            last += b(n.is_last_child());
            if (ns.size() <= 40)
            {
                std::vector<long> sib, e2, toks, ka, kA, kt;
                for (auto s : n.siblings()) { sib.push_back(id(s)); if (sib.size() > 100) break; }
                if (n.siblings().empty() != sib.empty()) sib.push_back(-7);
                for (auto [e, m] : t.traverse(n)) { e2.push_back(3 * id(m) + (e == lexy::traverse_event::enter ? 0 : e == lexy::traverse_event::exit ? 1 : 2)); if (e2.size() > 500) break; }
                for (auto m : lexy_ext::tokens(t, n)) toks.push_back(id(m));
                for (auto m : lexy_ext::children(t, n, tk::a)) ka.push_back(id(m));
                for (auto m : lexy_ext::children(t, n, A{})) kA.push_back(id(m));
                for (auto m : lexy_ext::children(t, n, [](auto x) { return x.kind().is_token(); })) kt.push_back(id(m));
                auto first = lexy_ext::child(t, n, [](auto) { return true; });
                long np = -1;
                { auto p = lexy_ext::node_position(t, n); np = p == it() ? -1 : pos(p); }
                std::vector<long> cov{-1, -1};
                if (solid) { auto c = n.covering_lexeme(); cov = {n.position() == c.begin() ? pos(c.begin()) : -5, pos(c.end())}; }
                more += "{\"sib\":" + join(sib) + ",\"ev\":" + join(e2) + ",\"toks\":" + join(toks) + ",\"pos\":" + std::to_string(np) + ",\"ka\":" + join(ka) + ",\"kA\":" + join(kA) + ",\"kt\":" + join(kt) + ",\"first\":" + std::to_string(first ? id(*first) : 0) + ",\"cov\":" + join(cov) + "}";
            }
        }
        std::vector<long> find;
        if (ns.size() <= 40) for (long p = 0; p < end; ++p) { if constexpr (std::is_pointer_v<it>) find.push_back(id(lexy_ext::find_covering_node(t, at[std::size_t(p)]))); }
        return r + "],\"last\":" + last + "],\"more\":" + more + "],\"find\":" + join(find) + "}";
    }
    strs run(const Input& in, const units& u)
    {
        auto rd = in.reader();
        at.push_back(rd.position());
        while (rd.peek() != reader::encoding::eof()) { rd.bump(); at.push_back(rd.position()); }
        res rs[2]; unsigned fresh = 0; // every other tree gets its memory from the other resource
        strs out;
        {
            std::optional<tree> ts[2];
            std::optional<typename tree::builder> bd;
            std::vector<typename tree::builder::marker> ms;
            auto prod = [](unsigned long n) -> lexy::production_info { return n == 0 ? lexy::production_info(A{}) : n == 1 ? lexy::production_info(B{}) : n == 2 ? lexy::production_info(T{}) : lexy::production_info(H{}); };
            auto kind = [](unsigned long n) -> lexy::token_kind<tk> { switch (n) { case 0: return tk::a; case 1: return tk::b; case 2: return lexy::error_token_kind; case 3: return lexy::whitespace_token_kind; case 4: return lexy::unknown_token_kind; case 5: return lexy::position_token_kind; case 6: return lexy::eof_token_kind; default: return lexy::digits_token_kind; } };
            auto blocks = [&] { return "\"blocks\":" + std::to_string(rs[0].live.size() + rs[1].live.size()); };
            for (std::size_t k = 0; k + 4 < u.size(); k += 5)
            {
                auto op = u[k], i = u[k + 1], n = u[k + 2], x = u[k + 3], y = u[k + 4];
                bool done = true;
                switch (op)
                {
                case 0: if (i == 0) bd.emplace(tree(&rs[fresh++ % 2]), prod(n)); else bd.emplace(std::move(*ts[i - 1]), prod(n)); ms.clear(); break;
                case 1: ms.push_back(bd->start_production(prod(n))); break;
                case 2: bd->finish_production(std::move(ms.back())); ms.pop_back(); break;
                case 3: bd->cancel_production(std::move(ms.back())); ms.pop_back(); break;
                case 4: ms.push_back(bd->start_container()); break;
                case 5: bd->set_container_production(prod(n)); break;
                case 6: bd->finish_container(std::move(ms.back())); ms.pop_back(); break;
                case 7: bd->cancel_container(std::move(ms.back())); ms.pop_back(); break;
                case 8: bd->token(kind(n), at[x], at[y]); break;
                default: done = false;
                }
                if (done) { out.push_back("{\"n\":" + std::to_string(bd->current_child_count()) + "}"); continue; }
                if (op == 9)
                {
                    if (ts[i - 1] && n) *ts[i - 1] = x == y ? std::move(*bd).finish(at[x]) : std::move(*bd).finish(lexy::lexeme<reader>(at[x], at[y]));
                    else ts[i - 1].emplace(x == y ? std::move(*bd).finish(at[x]) : std::move(*bd).finish(lexy::lexeme<reader>(at[x], at[y])));
                    bd.reset();
                    out.push_back("{\"tree\":" + show(*ts[i - 1]) + "}"); continue;
                }
                if (op == 17) { ts[0].reset(); ts[1].reset(); bd.reset(); out.push_back("{" + blocks() + ",\"errors\":" + std::to_string(rs[0].errors + rs[1].errors) + "}"); continue; }
                switch (op)
                {
                case 10: ts[i - 1].emplace(&rs[fresh++ % 2]); break;
                case 11: ts[i - 1]->clear(); break;
                case 12: ts[i - 1].emplace(std::move(*ts[n - 1])); break;
                case 13: *ts[i - 1] = std::move(*ts[n - 1]); break;
                case 14: { using std::swap; swap(*ts[0], *ts[1]); } break;
                case 15: ts[i - 1].reset(); break;
                case 16: break;
                }
                out.push_back("{" + blocks() + ",\"trees\":[" + (x & 1 ? show(*ts[0]) : "{\"m\":\"-\"}") + "," + (x & 2 ? show(*ts[1]) : "{\"m\":\"-\"}") + "]}");
            }
        }
        for (auto& r : rs) if (r.live.size() || r.errors) out.push_back("{\"n\":-1}");
        return out;
    }
};
strs buf(const units& u) { lexy::buffer<> in(std::string(3000, 'x')); H_<lexy::buffer<>> h; return h.run(in, u); }
strs lst(const units& u) { static std::list<char> l(300, 'x'); using I = lexy::range_input<lexy::default_encoding, std::list<char>::const_iterator>; I in(l.cbegin(), l.cend()); H_<I> h; return h.run(in, u); }
static bool r1 = reg("buf", &buf), r2 = reg("list", &lst);
}
'''
OPS = "start sp fp cp sc scp fc cc tok finish new clear move assign swap drop show end st sct".split()
PR = ["A", "B", "T", "H"]
TK = ["a", "b", "error token", "whitespace", "token", "position", "EOF", "digits"]
class G:
    """generates histories of builder calls whose preconditions hold"""
    def __init__(s, rng, maxpos=2900): s.rng, s.ops, s.maxpos = rng, [], maxpos
    def op(s, f, i=0, n=0, b=0, e=0, j=0, x=0): s.ops.append(dict(f=f, i=i, n=n, b=b, e=e, j=j, x=x))
    def build(s, n, slot, reuse=0, assign=0, sloppy=.3, prefix=0, wide=False):
        rng = s.rng
        s.op("start", i=reuse, n=rng.choice(["A", "B", "T"]))
        st, pos = [], 0     # frames: (kind, pos at the start)
        def tok():
            nonlocal pos
            k = rng.choice(TK if rng.random() < .6 else ["a", "error token", "digits"])
            l = 0 if k in ("position", "EOF") or rng.random() < .15 else 1 if wide else rng.choice([1, 1, 2, 3])
            if pos + l > s.maxpos: l = 0
            s.op("tok", n=k, b=pos, e=pos + l); pos += l
        for _ in range(prefix): s.op("tok", n="a", b=pos, e=min(pos + 1, s.maxpos)); pos = min(pos + 1, s.maxpos)
        for _ in range(n):
            r = rng.random()
            if wide and r < .9 or r < .35: tok()
            elif r < .55: s.op("sp", n=rng.choice(["A", "B", "T"])); st.append(("p", pos))
            elif r < .6: s.op("st", n="H"); st.append(("t", pos))
            elif r < .75: s.op("sc"); st.append(("c", pos))
            elif r < .82 and st and st[-1][0] == "c": s.op(*(("scp", 0, rng.choice(["A", "B", "T"])) if rng.random() < .85 else ("sct", 0, "H")))
            elif st:
                k, p = st.pop()
                if k == "t": s.op(rng.choice(["fp", "fp", "cp"]))
                elif rng.random() < sloppy: s.op("cp" if k == "p" else "cc"); pos = p
                else:
                    if rng.random() < .6: tok()
                    s.op("fp" if k == "p" else "fc")
        while st:
            k, p = st.pop()
            if rng.random() < .5: tok()
            s.op("fc" if k == "c" else "fp")
        rem = rng.choice([0, 0, 4])
        s.op("finish", i=slot, n=assign, b=pos, e=pos + rem)
def line(kind, ops):
    o = []
    for p in ops:
        f = p["f"]
        code = {"st": 1, "sct": 5}.get(f, OPS.index(f))
        n = PR.index(p["n"]) if f in ("start", "sp", "st", "scp", "sct") else TK.index(p["n"]) if f == "tok" else p["j"] if f in ("move", "assign", "swap") else p["n"]
        o += [code, p["i"], n, p["b"] if f in ("tok", "finish") else p["x"], p["e"]]
    return kind + " " + " ".join(map(str, o))
def life(rng, g, n):
    """histories of tree objects"""
    st = ["none", "none"]      # none, ok, moved
    vis = lambda: sum(1 << k for k in range(2) if st[k] == "ok")
    for _ in range(n):
        r, i = rng.random(), rng.randrange(2)
        j = 1 - i
        if r < .4:
            re = rng.choice([0, 1, 2]); re = re if re == 0 or st[re - 1] != "none" else 0
            if re: st[re - 1] = "moved"
            g.build(rng.choice([0, 3, 10, 25]), i + 1, re, assign=int(st[i] != "none" and rng.random() < .5), wide=rng.random() < .2, prefix=rng.choice([0, 0, 0, 170, 400]))
            st[i] = "ok"
        elif r < .5: st[i] = "ok"; g.op("new", i=i + 1, x=vis())
        elif r < .65 and st[i] != "none": st[i] = "ok"; g.op("clear", i=i + 1, x=vis())
        elif r < .75 and st[j] == "ok": st[i], st[j] = "ok", "moved"; g.op("move", i=i + 1, j=j + 1, x=vis())
        elif r < .85 and st[j] == "ok" and st[i] != "none": st[i], st[j] = "ok", "moved"; g.op("assign", i=i + 1, j=j + 1, x=vis())
        elif r < .93 and st[0] != "none" and st[1] != "none": st.reverse(); g.op("swap", i=1, j=2, x=vis())
        elif st[i] != "none": st[i] = "none"; g.op("drop", i=i + 1, x=vis())
    g.op("end")
def suite(run, work, dev=False):
    seed, tier = (run.seed, run.tier) if run else ("1", "quick")
    rng = random.Random("c24" + seed)
    calls = []
    def add(kind, g):
        if kind == "list":
            if any(o["e"] > 290 for o in g.ops): kind = "buf"
        for o in g.ops:
            if o["f"] == "tok": assert o["n"] in TK
        calls.append((line(kind, g.ops), {"s": g.ops}))
    full = 1 if tier == "quick" else 12
    for k in range(700 * full):
        g = G(rng); g.build(rng.choice([2, 4, 8, 14, 25]), 1); g.op("end"); add(rng.choice(["buf", "buf", "list"]), g)
    # around the end of a block of memory: 4088 bytes, nodes of 24 bytes, pointers of 8
    for pre in list(range(160, 172)) + list(range(332, 342)):
        for k in range(3 * full):
            g = G(rng); g.build(rng.choice([6, 12, 20]), 1, sloppy=.5, prefix=pre); g.op("end"); add("buf", g)
    for k in range(15 * full):
        g = G(rng); g.build(rng.choice([300, 700]), 1, sloppy=.2, wide=k % 2 == 0); g.op("end"); add("buf", g)
    for k in range(120 * full):
        g = G(rng); life(rng, g, rng.choice([4, 8, 15])); add("buf", g)
    def post(r, o):
        return [json.loads(x) for x in o]
    return callrun.suite(run, work, "c24", "Trees", calls, {"tree": SRC}, post=post, opt="-O0", extra=("CXX=clang++", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"), mem_kb=0,
                         consts="CONSTANTS\n First <- Start\n After <- Step\n Good <- Ok\n")
