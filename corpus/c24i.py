"""parse trees as inputs"""
import random, json
from gram import *
from vlib import *
import callrun
HEAD = r'''
#define LEXY_EXPERIMENTAL 1
#include <lexy/action/match.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/dsl/parse_tree_node.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/parse_tree_input.hpp>
#include <lexy/parse_tree.hpp>
#include <map>
#include <string>
#include <vector>
namespace dsl = lexy::dsl;
namespace vf {
using units = std::vector<unsigned long>;
using fn    = std::vector<std::string> (*)(const units&);
std::map<std::string, fn>& registry();
using strs = std::vector<std::string>;
inline bool reg(const char* n, fn f) { registry()[n] = f; return true; }
enum class tk { a, b };
constexpr const char* token_kind_name(tk k) { return k == tk::a ? "a" : "b"; }
struct A { static constexpr auto name = "A"; static constexpr auto rule = dsl::any; };
struct B { static constexpr auto name = "B"; static constexpr auto rule = dsl::any; };
using tree = lexy::parse_tree_for<lexy::buffer<>, tk>;
inline const char* origin;
struct err
{
    struct sink_t
    {
        strs l; using return_type = strs;
        static std::string rec(std::string n, long a, long b) { return n + "|" + std::to_string(a) + "|" + std::to_string(b); }
        template <typename Ctx, typename R> void operator()(const Ctx&, const lexy::error<R, lexy::expected_literal>& e) { l.push_back(rec("literal", e.position() - origin, long(e.index()))); }
        template <typename Ctx, typename R> void operator()(const Ctx&, const lexy::error<R, lexy::expected_keyword>& e) { l.push_back(rec("keyword", e.begin() - origin, e.end() - origin)); }
        template <typename Ctx, typename R> void operator()(const Ctx&, const lexy::error<R, lexy::expected_char_class>& e) { l.push_back(rec(e.name(), e.position() - origin, e.position() - origin)); }
        template <typename Ctx, typename R> void operator()(const Ctx&, const lexy::error<R, void>& e) { l.push_back(rec(e.message(), e.begin() - origin, e.end() - origin)); }
        strs finish() && { return std::move(l); }
    };
    auto sink() const { return sink_t{}; }
};
template <typename G> strs go(const units& u)
{
    // u: length of the text, the text, then the tree: 0 n b e token; 1 n production; 2 end
    std::string text; for (std::size_t i = 1; i <= u[0]; ++i) text += char(u[i]);
    lexy::buffer<> in(text); origin = in.data();
    tree::builder b(A{});
    std::vector<tree::builder::marker> ms;
    std::size_t i = 1 + u[0];
    while (i < u.size())
        switch (u[i])
        {
        case 0: b.token(u[i + 1] == 0 ? tk::a : tk::b, in.data() + u[i + 2], in.data() + u[i + 3]); i += 4; break;
        case 1: ms.push_back(u[i + 1] == 0 ? b.start_production(A{}) : b.start_production(B{})); i += 2; break;
        default: b.finish_production(std::move(ms.back())); ms.pop_back(); ++i; break;
        }
    tree t = std::move(b).finish(in.data() + text.size());
    lexy::parse_tree_input input(t);
    auto r = lexy::validate<G>(input, err{});
    strs o{r.is_success() ? "success" : r.is_recovered_error() ? "recovered" : "fatal"};
    if (lexy::match<G>(input) != r.is_success()) o.push_back("match differs|0|0");
    for (auto& e : r.errors()) o.push_back(e);
    return o;
}
'''
def cpp(g):
    k = g["k"]
    if k == "tn": return "dsl::tnode<tk::%s>" % g["n"]
    if k == "pn": return "dsl::pnode<%s>" % g["n"]
    if k == "tnr":
        l = "".join(map(chr, g["r"].get("l", [])))
        return "dsl::tnode<tk::%s>(%s)" % (g["n"], {"lit": 'LEXY_LIT("%s")' % l, "digits": "dsl::while_one(dsl::ascii::digit)", "text": 'LEXY_LIT("%s") + dsl::while_one(dsl::ascii::digit)' % l}[g["r"]["k"]])
    if k == "pnr": return "dsl::pnode<%s>(%s)" % (g["n"], cpp(g["r"]))
    if k == "seq": return "(" + " + ".join(map(cpp, g["rs"])) + ")"
    if k == "alt": return "(" + " | ".join(map(cpp, g["rs"])) + ")"
    if k == "opt": return "dsl::if_(%s)" % cpp(g["r"])
    if k == "while": return "dsl::while_(%s)" % cpp(g["r"])
    return "dsl::eof"
def gen_rule(rng, d):
    def text(): return rng.choice([{"k": "lit", "l": [120]}, {"k": "lit", "l": [120, 121]}, {"k": "digits"}, {"k": "text", "l": [120]}])
    def branch(d):
        k = rng.choice(["tn", "tnr", "pn", "pnr", "pnr"] if d else ["tn", "tnr", "pn"])
        g = {"k": k, "n": rng.choice("ab" if k[0] == "t" else "AB")}
        if k == "tnr": g["r"] = text()
        if k == "pnr": g["r"] = gen_rule(rng, d - 1)
        return g
    k = rng.choice(["b", "seq", "seq", "alt", "opt", "while"] if d else ["b", "seq"])
    if k == "b": return branch(d)
    if k == "seq": return {"k": "seq", "rs": [rng.choice([branch(d), branch(d), {"k": "opt", "r": branch(d)}, {"k": "while", "r": branch(0)}]) for _ in range(rng.randint(2, 3))] + ([{"k": "eof"}] if rng.random() < .5 else [])}
    if k == "alt": return {"k": "alt", "rs": [branch(d) for _ in range(rng.randint(2, 3))]}
    return {"k": "seq", "rs": [{"k": k, "r": branch(d)}, branch(d)]}
def matching(rng, g, out):
    """nodes that fit the rule, mostly"""
    k = g["k"]
    if k in ("tn", "tnr"):
        t = g["r"] if k == "tnr" else {"k": "lit", "l": [120]}
        s = t.get("l", []) + ([rng.choice([48, 57]) for _ in range(rng.randint(1, 2))] if t["k"] != "lit" else [])
        r = rng.random()
        if r < .12: s = s + [121]
        elif r < .24: s = s[:-1] or [121]
        out.append(("t", g["n"], s))
    elif k in ("pn", "pnr"):
        c = []
        if k == "pnr": matching(rng, g["r"], c)
        if rng.random() < .2 or not c: c.append(rng.choice([("t", "a", [120]), ("t", "b", [48])]))
        out.append(("p", g["n"], c))
    elif k == "seq":
        for x in g["rs"]: matching(rng, x, out)
    elif k == "alt": matching(rng, rng.choice(g["rs"]), out)
    elif k == "opt":
        if rng.random() < .6: matching(rng, g["r"], out)
    elif k == "while":
        for _ in range(rng.randint(0, 3)): matching(rng, g["r"], out)
def mutate(rng, ns):
    ns = list(ns)
    if ns and rng.random() < .5: ns.pop(rng.randrange(len(ns)))
    elif ns and rng.random() < .5:
        i = rng.randrange(len(ns)); k, n, c = ns[i]
        ns[i] = (k, rng.choice("ab" if k == "t" else "AB"), c if k == "t" else mutate(rng, c) or [("t", "a", [120])])
    else: ns.insert(rng.randint(0, len(ns)), rng.choice([("t", "a", [120]), ("p", "A", [("t", "b", [48])]), ("p", "B", [("t", "a", [120]), ("t", "b", [48])])]))
    return ns
def emit(ns, text, enc):
    """lay the nodes out in the text; returns model nodes"""
    res = []
    for k, n, c in ns:
        b = len(text)
        if k == "t":
            text.extend(c); res.append({"t": True, "n": n, "b": b, "e": len(text), "c": []}); enc += [0, "ab".index(n), b, len(text)]
        else:
            enc += [1, "AB".index(n)]; kids = emit(c, text, enc); enc.append(2)
            res.append({"t": False, "n": n, "b": b, "e": len(text), "c": kids})
    return res
def suite(run, work, dev=False):
    seed, tier = (run.seed, run.tier) if run else ("1", "quick")
    rng = random.Random("c24i" + seed)
    NG = 48 if tier == "quick" else 160
    gs = [gen_rule(rng, rng.choice([0, 1, 2, 2])) for _ in range(NG)]
    src, calls = {}, []
    for b in range(0, NG, 6):
        t = HEAD
        for k in range(b, min(b + 6, NG)): t += "struct G%d { static constexpr auto name = \"G\"; static constexpr auto rule = %s; };\nstatic bool g%d = reg(\"G%d\", &go<G%d>);\n" % (k, cpp(gs[k]), k, k, k)
        src["ti%d" % b] = t + "}\n"
    for k, g in enumerate(gs):
        seen = set()
        for i in range(150 if tier == "quick" else 1200):
            ns = []; matching(rng, g, ns)
            for _ in range(rng.choice([0, 0, 1, 2])): ns = mutate(rng, ns)
            if not ns: ns = [("t", "b", [120])]
            if str(ns) in seen: continue
            seen.add(str(ns))
            text, enc = [], []
            nodes = emit(ns, text, enc)
            calls.append(("G%d " % k + " ".join(map(str, [len(text)] + text + enc)), {"g": g, "x": text, "tree": {"t": False, "n": "A", "b": 0, "e": len(text), "c": nodes}}))
    def post(r, o):
        return [o[0]] + [[p[0], int(p[1]), int(p[2])] for p in (x.rsplit("|", 2) for x in o[1:])]
    return callrun.suite(run, work, "c24i", "TreeInput", calls, src, post=post, opt="-O0", extra=("CXX=clang++", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"), mem_kb=0)
