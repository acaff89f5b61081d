"""histories of buffers"""
import random, itertools, json
from gram import *
from vlib import *
import callrun
SRC = r'''
#include <lexy/input/buffer.hpp>
#include <cstdlib>
#include <map>
#include <new>
#include <optional>
#include <string>
#include <vector>
namespace vf {
using units = std::vector<unsigned long>;
using fn    = std::vector<std::string> (*)(const units&);
std::map<std::string, fn>& registry();
using strs = std::vector<std::string>;
inline bool reg(const char* n, fn f) { registry()[n] = f; return true; }
struct res
{
    struct blk { std::size_t size, align; };
    struct group { std::map<void*, blk> live; };
    int g; group* gr; bool* fail; long* errors;
    void* allocate(std::size_t n, std::size_t a)
    {
        if (*fail) throw std::bad_alloc();
        auto p = std::malloc(n ? n : 1);
        gr->live[p] = blk{n, a};
        return p;
    }
    void deallocate(void* p, std::size_t n, std::size_t a) noexcept
    {
        auto it = gr->live.find(p);
        if (it == gr->live.end() || it->second.size != n || it->second.align != a) { ++*errors; return; }
        gr->live.erase(it); std::free(p);
    }
    friend bool operator==(const res& l, const res& r) noexcept { return l.g == r.g; }
};
template <typename E, typename Second> strs history(const units& u)
{
    using buf = lexy::buffer<E, res>;
    using C = typename E::char_type;
    res::group groups[2]; bool fail = false; long errors = 0;
    res rs[3] = {{0, &groups[0], &fail, &errors}, {1, &groups[1], &fail, &errors}, {0, &groups[0], &fail, &errors}};
    std::optional<buf> s[3];
    strs out;
    for (std::size_t at = 0; at < u.size();)
    {
        auto op = u[at], i = u[at + 1], j = u[at + 2], r = u[at + 3], fault = u[at + 4], n = u[at + 5];
        std::vector<C> v; for (std::size_t k = 0; k < n; ++k) v.push_back(C(u[at + 6 + k]));
        // exactly as large as needed, so that reading more is noticed
        std::vector<Second> v2; for (auto c : v) v2.push_back(Second(c));
        at += 6 + n;
        bool threw = false;
        fail = fault != 0;
        try
        {
            switch (op)
            {
            case 0: { buf b(v.data(), n, &rs[r]); fail = false; s[i].emplace(std::move(b)); } break;
            case 1: { buf b(v.data(), v.data() + n, &rs[r]); fail = false; s[i].emplace(std::move(b)); } break;
            case 2: { buf b(v2.data(), v2.data() + n, &rs[r]); fail = false; s[i].emplace(std::move(b)); } break;
            case 3: { if (n % 2) { buf b(v, &rs[r]); fail = false; s[i].emplace(std::move(b)); } else { buf b(v2, &rs[r]); fail = false; s[i].emplace(std::move(b)); } } break;
            case 4: { typename buf::builder b(n, &rs[r]); if (b.size() != n) ++errors; for (std::size_t k = 0; k < n; ++k) b.data()[k] = v[k]; auto f = std::move(b).finish(); fail = false; s[i].emplace(std::move(f)); } break;
            case 5: s[i].emplace(&rs[r]); break;
            case 6: { buf b(*s[j]); fail = false; s[i].emplace(std::move(b)); } break;
            case 7: { buf b(*s[j], &rs[r]); fail = false; s[i].emplace(std::move(b)); } break;
            case 8: s[i].emplace(std::move(*s[j])); break;
            case 9: *s[i] = *s[j]; break;
            case 10: *s[i] = std::move(*s[j]); break;
            case 11: { auto sz = s[j]->size(); auto p = std::move(*s[j]).release(); s[i].emplace(buf::adopt(p, sz, &rs[r])); } break;
            case 12: s[i].reset(); break;
            case 13: for (auto& x : s) x.reset(); break;
            }
        }
        catch (const std::bad_alloc&) { threw = true; }
        fail = false;
        auto b = [](bool x) { return x ? "true" : "false"; };
        std::string o = std::string("{\"threw\":") + b(threw) + ",\"errors\":" + std::to_string(errors) + ",\"blocks\":" + std::to_string(groups[0].live.size() + groups[1].live.size()) + ",\"slots\":[";
        for (int k = 0; k < 3; ++k)
        {
            if (k) o += ",";
            if (!s[k]) { o += "{\"there\":false}"; continue; }
            auto list = [](auto from, auto to) { std::string r = "["; for (auto p = from; p != to; ++p) r += (p == from ? "" : ",") + std::to_string((unsigned long)(std::make_unsigned_t<std::conditional_t<sizeof(C)==1, char, std::conditional_t<sizeof(C)==2, short, int>>>(*p))); return r + "]"; };
            auto& x = *s[k];
            std::vector<C> read;
            for (auto rd = x.reader(); rd.peek() != E::eof() && read.size() < 1000; rd.bump()) read.push_back(C(rd.peek()));
            int owner = -1;
            for (int g = 0; g < 2; ++g) if (x.data() && groups[g].live.count((void*)(x.data()))) owner = g;
            o += std::string("{\"there\":true,\"size\":") + std::to_string(x.size()) + ",\"content\":" + list(x.data(), x.data() + x.size()) + ",\"read\":" + list(read.data(), read.data() + read.size()) + ",\"owner\":" + std::to_string(owner) + "}";
        }
        out.push_back(o + "]}");
    }
    return out;
}
static bool
  a1 = reg("utf8", &history<lexy::utf8_encoding, char>), a2 = reg("utf8c", &history<lexy::utf8_char_encoding, unsigned char>), a3 = reg("ascii", &history<lexy::ascii_encoding, char>), a4 = reg("default", &history<lexy::default_encoding, char>),
  a5 = reg("utf16", &history<lexy::utf16_encoding, char16_t>), a6 = reg("utf32", &history<lexy::utf32_encoding, char32_t>);
}
'''
OPS = "ptr range second view build new copy copyr move assign massign adopt drop end".split()
UNITS = {"utf8": [97, 0, 0x80, 0xFE, 0xC3], "utf8c": [97, 0x80], "ascii": [97, 0, 127], "default": [97, 0, 0xFF, 0x80], "utf16": [97, 0x6100, 0xFFFF, 0xDFFF, 0], "utf32": [97, 0, 0x10FFFF, 0x61000000]}
def gen(rng, e, n):
    """a history: only operations whose preconditions hold"""
    there, r, ops = [False] * 3, [0] * 3, []
    size = lambda: rng.choice([0, 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31])
    while len(ops) < n:
        i, j = rng.randrange(3), rng.randrange(3)
        f = rng.choice(OPS[:-1] + ["assign", "massign", "copy"])
        if rng.random() < .03 and f != "end": f = "end"
        op = dict(f=f, i=i + 1, j=j + 1, r=rng.randrange(3), fault=False, v=[])
        if f in ("copy", "copyr", "move", "adopt") and (i == j or not there[j]): continue
        if f in ("assign", "massign") and not (there[i] and there[j]): continue
        if f in ("ptr", "range", "second", "view", "build"): op["v"] = [rng.choice(UNITS[e]) for _ in range(size())]
        if f in ("ptr", "range", "second", "view", "build", "copy", "copyr", "assign", "massign") and rng.random() < .06 and not (f == "massign" and True): op["fault"] = True
        if f == "adopt": op["r"] = r[j]
        # what a fault does to the slot depends on what is allocated: follow it with an "end" to stay predictable
        ops.append(op)
        if f in ("ptr", "range", "second", "view", "build", "new", "copyr"):
            if not op["fault"]: there[i], r[i] = True, op["r"]
        elif f in ("copy", "move", "adopt"):
            if not op["fault"]: there[i], r[i] = True, r[j]
        elif f == "drop": there[i] = False
        elif f == "end": there = [False] * 3
        if op["fault"] and f != "assign":
            ops.append(dict(f="end", i=1, j=1, r=0, fault=False, v=[])); there = [False] * 3
    ops.append(dict(f="end", i=1, j=1, r=0, fault=False, v=[]))
    return ops
def line(e, ops):
    return e + " " + " ".join(str(x) for o in ops for x in [OPS.index(o["f"]), o["i"] - 1, o["j"] - 1, o["r"], int(o["fault"]), len(o["v"]), *o["v"]])
def suite(run, work, dev=False):
    seed, tier = (run.seed, run.tier) if run else ("1", "quick")
    rng = random.Random("c16" + seed)
    calls = []
    for e in UNITS:
        # every pair of contents through every two-operand operation
        sizes = [0, 1, 3, 7, 8, 9, 16]
        for f in ("copy", "copyr", "move", "assign", "massign", "adopt"):
            for a, b in itertools.product(sizes, sizes) if f in ("assign", "massign") else [(0, x) for x in sizes]:
                for r1, r2 in ((0, 0), (0, 1), (0, 2), (1, 0)):
                    mk = lambda i, n, r: dict(f="new" if n == 0 and r1 != r2 else "ptr", i=i, j=1, r=r, fault=False, v=[rng.choice(UNITS[e]) for _ in range(n)])
                    ops = [mk(1, a, r1), mk(2, b, r2), dict(f=f, i=1, j=2, r=r2 if f == "adopt" else r1, fault=False, v=[]), dict(f="end", i=1, j=1, r=0, fault=False, v=[])]
                    calls.append((line(e, ops), {"s": ops}))
        for f in ("assign", "massign"):
            for n in sizes:
                ops = [dict(f="build", i=1, j=1, r=1, fault=False, v=[rng.choice(UNITS[e]) for _ in range(n)]), dict(f=f, i=1, j=1, r=0, fault=False, v=[]), dict(f="end", i=1, j=1, r=0, fault=False, v=[])]
                calls.append((line(e, ops), {"s": ops}))
        for k in range(150 if tier == "quick" else 4000):
            ops = gen(rng, e, rng.choice([3, 6, 12, 25]))
            calls.append((line(e, ops), {"s": ops}))
    return callrun.suite(run, work, "c16", "Buffers", calls, {"buf": SRC}, post=lambda r, o: [json.loads(x) for x in o], opt="-O0",
                         extra=("CXX=clang++", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"), mem_kb=0, consts="CONSTANTS\n First <- Start\n After <- Step\n Good <- Ok\n")
