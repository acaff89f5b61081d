"""reading files and standard input, with a system that answers from a script"""
import random, os
from gram import *
from vlib import *
import callrun
HDR = r'''
#include <lexy/input/file.hpp>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <memory>
#include <string>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>
namespace vf {
using units = std::vector<unsigned long>;
using strs  = std::vector<std::string>;
using fn    = strs (*)(const units&);
std::map<std::string, fn>& registry();
inline bool reg(const char* n, fn f) { registry()[n] = f; return true; }
struct step { int what; long n; };        // 0: give at most n, 1: the end, 2: fail with n
struct script { int open = 0, seek = 0, map = 0; std::vector<step> reads; std::size_t at = 0; bool armed = false, hit = false; };
extern script sys;
struct res
{
    long live = 0;
    void* allocate(std::size_t n, std::size_t) { ++live; return std::malloc(n ? n : 1); }
    void deallocate(void* p, std::size_t, std::size_t) noexcept { --live; std::free(p); }
    friend bool operator==(const res&, const res&) noexcept { return true; }
};
template <typename R> void show(strs& r, R&& result)
{
    using C = typename std::decay_t<R>::char_type;
    if (!result) { r.push_back(std::to_string(int(result.error()))); return; }
    auto num = [](C c) { return (unsigned long)(std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, std::conditional_t<sizeof(C) == 2, short, int>>>(c)); };
    const auto& cb = result.buffer();
    auto size = cb.size();
    auto b = LEXY_MOV(result).buffer();
    if (b.size() != size) { r.push_back("-1"); return; }
    r.push_back("0"); r.push_back(std::to_string(size));
    if (size <= 48) { for (std::size_t i = 0; i < size; ++i) r.push_back(std::to_string(num(b.data()[i]))); return; }
    unsigned long h = 7, g = 1;
    for (std::size_t i = 0; i < size; ++i) { auto u = num(b.data()[i]); h = (h * 31 + u % 65521) % 65521; g = (g * 257 + u % 30011) % 30011; }
    r.push_back(std::to_string(h)); r.push_back(std::to_string(g));
}
// call: seed, number of bytes, length of the prefix, the prefix; the rest is for the kind of call
struct call
{
    std::string content; units rest;
    explicit call(const units& u)
    {
        std::size_t k = 3;
        for (; k < 3 + u[2]; ++k) content += char(u[k]);
        for (unsigned long i = 1; i <= u[1]; ++i) content += char((i * 167 + (i / 256) * 59 + u[0]) % 256);
        rest.assign(u.begin() + k, u.end());
    }
};
struct scratch
{
    char dir[32];
    scratch() { std::strcpy(dir, "./files-XXXXXX"); if (!mkdtemp(dir)) std::abort(); }
    ~scratch() { std::string c = std::string("rm -rf '") + dir + "'"; if (std::system(c.c_str())) std::abort(); }
    std::string file(const char* n) const { return std::string(dir) + "/" + n; }
};
inline void put(const std::string& path, const std::string& content, const char* mode = "wb")
{
    std::FILE* f = std::fopen(path.c_str(), mode);
    if (!f || std::fwrite(content.data(), 1, content.size(), f) != content.size() || std::fclose(f)) std::abort();
}
// fault: 0 none, 1 open, 2 seek, 3 map (with an error number), 4 reads (pairs)
template <typename E, lexy::encoding_endianness N, typename R> strs file(const units& u)
{
    call c(u); scratch d; put(d.file("f"), c.content);
    sys = script();
    if (c.rest[0] == 1) sys.open = c.rest[1];
    if (c.rest[0] == 2) sys.seek = c.rest[1];
    if (c.rest[0] == 3) sys.map = c.rest[1];
    if (c.rest[0] == 4) for (std::size_t k = 1; k + 1 < c.rest.size(); k += 2) sys.reads.push_back({int(c.rest[k]), long(c.rest[k + 1])});
    strs r; auto path = d.file("f");
    res mr;
    {
        sys.armed = true;
        if constexpr (std::is_void_v<R>) { auto x = lexy::read_file<E, N>(path.c_str()); sys.armed = false; r.push_back(sys.hit ? "1" : "0"); show(r, x); }
        else { auto x = lexy::read_file<E, N>(path.c_str(), &mr); sys.armed = false; r.push_back(sys.hit ? "1" : "0"); show(r, x); }
    }
    if (mr.live != 0) r.push_back("-2");
    return r;
}
template <typename E, lexy::encoding_endianness N> strs path(const units& u)
{
    call c(u); scratch d; strs r{"0"};
    auto kind = c.rest[0];
    auto f = d.file("f"); put(f, c.content);
    auto l = d.file("l"), m = d.file("m"); std::string p = f;
    auto link = [](const std::string& a, const std::string& b) { if (::symlink(a.c_str(), b.c_str())) std::abort(); };
    std::thread writer;
    auto go = [&] { auto x = lexy::read_file<E, N>(p.c_str()); show(r, x); };
    switch (kind)
    {
    case 0: p = d.file("nothing"); break;
    case 1: p = f + "/g"; break;
    case 2: link("m", l); link("l", m); p = l; break;
    case 3: p = ""; break;
    case 4: p = d.file("no/thing"); break;
    case 5: link("nothing", l); p = l; break;
    case 6: p = d.dir; break;
    case 7: p = d.file(std::string(5000, 'x').c_str()); break;
    case 8: link("f", l); p = l; break;
    case 9: link("f", l); link("l", m); p = m; break;
    case 10: p = d.file("../") + (d.dir + 2) + "/./f"; break;
    case 11: p = "/dev/null"; break;
    case 12: if (std::rename(f.c_str(), m.c_str())) std::abort(); p = m; break;
    case 13: go(); r = {"0"}; put(f, c.content); break;                      // after reading it: replaced
    case 14: put(f, std::string("x")); go(); r = {"0"}; ::unlink(f.c_str()); put(f, c.content.substr(0, c.content.size() / 2)); go(); r = {"0"}; put(f, c.content.substr(c.content.size() / 2), "ab"); break;
    case 15:
    {
        if (::mkfifo(m.c_str(), 0600)) std::abort();
        p = m;
        int fd = ::open(m.c_str(), O_RDWR | O_NONBLOCK);                     // keeps both ends open
        if (fd < 0 || ::write(fd, c.content.data(), c.content.size()) != long(c.content.size())) std::abort();
        int fds[2]; if (::pipe(fds)) std::abort();
        // without a writer the reader would not end: close ours once it is open (it fails before reading at all, or reads to the end)
        writer = std::thread([fd] { ::usleep(20000); ::close(fd); });
        go(); writer.join(); ::close(fds[0]); ::close(fds[1]); return r;
    }
    case 16:
    {
        // as a user who may not read it
        ::chmod(d.dir, 0755); ::chmod(f.c_str(), 0);
        int fds[2]; if (::pipe(fds)) std::abort();
        auto pid = ::fork();
        if (pid == 0)
        {
            int why = 9;
            if (::chdir(d.dir) == 0 && ::setgid(65534) == 0 && ::setuid(65534) == 0)
            {
                // where the user may read it all the same there is nothing to check
                int o = ::open("f", O_RDONLY);
                if (o >= 0 || errno != EACCES) why = 3;
                else { auto x = lexy::read_file<E, N>("f"); why = x ? 0 : int(x.error()); }
            }
            else why = 3;
            char ch = char('0' + why); if (::write(fds[1], &ch, 1) != 1) _exit(1); _exit(0);
        }
        char ch = '8'; if (::read(fds[0], &ch, 1) != 1) ch = '8';
        int st; ::waitpid(pid, &st, 0); ::close(fds[0]); ::close(fds[1]); ::chmod(d.dir, 0700);
        r.push_back(std::string(1, ch)); return r;
    }
    }
    go();
    return r;
}
struct source { std::string content; std::size_t at = 0; units pieces; std::size_t piece = 0; int err = 0; };
inline ssize_t source_read(void* s, char* buf, std::size_t size)
{
    auto& x = *static_cast<source*>(s);
    std::size_t n = x.content.size() - x.at;
    if (x.piece < x.pieces.size()) { if (x.pieces[x.piece] < n) n = x.pieces[x.piece]; ++x.piece; }
    if (n == 0 && x.at == x.content.size() && x.err) { errno = x.err; return -1; }
    if (n > size) n = size;
    std::memcpy(buf, x.content.data() + x.at, n); x.at += n;
    return long(n);
}
// how: 0 scripted stream, 1 the same unbuffered, 2 file, 3 pipe, 4 pipe written slowly, 5 a directory, 6 not open for reading, 7 file read from an offset
// then the error number after the content, then the sizes of the pieces
template <typename E, lexy::encoding_endianness N, typename R> strs input(const units& u)
{
    call c(u); strs r{"0"}; auto how = c.rest[0];
    source src; src.content = c.content; src.err = int(c.rest[1]); src.pieces.assign(c.rest.begin() + 2, c.rest.end());
    scratch d; std::FILE* old = stdin; std::FILE* f = nullptr; std::thread writer; int fds[2];
    switch (how)
    {
    case 0: case 1:
        f = ::fopencookie(&src, "rb", {&source_read, nullptr, nullptr, nullptr});
        if (how == 1) std::setvbuf(f, nullptr, _IONBF, 0);
        break;
    case 2: put(d.file("f"), c.content); f = std::fopen(d.file("f").c_str(), "rb"); break;
    case 7: put(d.file("f"), "skipped" + c.content); f = std::fopen(d.file("f").c_str(), "rb"); for (int i = 0; i < 7; ++i) std::fgetc(f); break;
    case 3: case 4:
        if (::pipe(fds)) std::abort();
        f = ::fdopen(fds[0], "rb");
        writer = std::thread([&] {
            std::size_t at = 0;
            for (auto p : src.pieces) { auto n = std::min<std::size_t>(p, c.content.size() - at); if (n && ::write(fds[1], c.content.data() + at, n) != long(n)) std::abort(); at += n; if (how == 4) ::usleep(300); }
            if (at < c.content.size() && ::write(fds[1], c.content.data() + at, c.content.size() - at) != long(c.content.size() - at)) std::abort();
            ::close(fds[1]);
        });
        break;
    case 5: f = ::fdopen(::open(d.dir, O_RDONLY), "rb"); break;
    case 6: f = ::fdopen(::open("/dev/null", O_WRONLY), "wb"); break;
    }
    if (!f) std::abort();
    stdin = f;
    res mr;
    for (int k = 0; k < (src.err ? 1 : 2); ++k)
    {
        if constexpr (std::is_void_v<R>) show(r, lexy::read_stdin<E, N>());
        else show(r, lexy::read_stdin<E, N>(&mr));
    }
    stdin = old;
    if (writer.joinable()) writer.join();
    std::fclose(f);
    if (mr.live != 0) r.push_back("-2");
    return r;
}
}
'''
# the system calls of src/input/file.cpp are linked to these
STAND = r'''
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
namespace vf { script sys; }
using vf::sys;
static bool few = [] { rlimit l{64, 64}; return ::setrlimit(RLIMIT_NOFILE, &l) == 0; }();   // a file that is not closed shows
static int fail(long e) { sys.hit = true; errno = int(e); return -1; }
extern "C" {
int __real_open(const char*, int, ...); off_t __real_lseek(int, off_t, int); ssize_t __real_read(int, void*, size_t);
void* __real_mmap(void*, size_t, int, int, int, off_t); std::FILE* __real_fopen(const char*, const char*);
int __wrap_open(const char* p, int f, ...)
{
    va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a);
    return sys.armed && sys.open ? fail(sys.open) : __real_open(p, f, m);
}
off_t __wrap_lseek(int fd, off_t o, int w) { return sys.armed && sys.seek ? fail(sys.seek) : __real_lseek(fd, o, w); }
ssize_t __wrap_read(int fd, void* b, size_t n)
{
    if (!sys.armed || sys.at >= sys.reads.size()) return __real_read(fd, b, n);
    auto s = sys.reads[sys.at++]; sys.hit = true;
    if (s.what == 2) return fail(s.n);
    if (s.what == 1) return 0;
    return __real_read(fd, b, n < size_t(s.n) ? n : size_t(s.n));
}
void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o)
{
    if (sys.armed && sys.map) { fail(sys.map); return MAP_FAILED; }
    return __real_mmap(a, n, p, f, fd, o);
}
static int ck_fd(void* c) { return int(long(c)) - 1; }
static ssize_t ck_read(void* c, char* b, size_t n) { return __wrap_read(ck_fd(c), b, n); }
static int ck_seek(void* c, off64_t* o, int w) { auto r = __wrap_lseek(ck_fd(c), *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { return ::close(ck_fd(c)); }
std::FILE* __wrap_fopen(const char* p, const char* m)
{
    if (!sys.armed) return __real_fopen(p, m);
    if (sys.open) { fail(sys.open); return nullptr; }
    int fd = __real_open(p, O_RDONLY, 0); if (fd < 0) return nullptr;
    return ::fopencookie(reinterpret_cast<void*>(long(fd) + 1), m, {&ck_read, nullptr, &ck_seek, &ck_close});
}
}
'''
WRAP = ["-Wl,--wrap=" + x for x in ("open", "lseek", "read", "mmap", "fopen")]
ENC = {"utf8": "lexy::utf8_encoding", "utf16": "lexy::utf16_encoding", "utf32": "lexy::utf32_encoding", "byte": "lexy::byte_encoding", "ascii": "lexy::ascii_encoding", "default": "lexy::default_encoding"}
SZ = {"utf16": 2, "utf32": 4}
KINDS = ["missing", "below a file", "link loop", "empty", "missing directory", "dangling link", "directory", "too long", "link", "link to link", "relative", "device without bytes", "moved", "replaced", "appended", "fifo", "unreadable"]
BOMS = {"utf8": [[0xEF, 0xBB, 0xBF], [0xEF, 0xBB]], "utf16": [[0xFE, 0xFF], [0xFF, 0xFE]], "utf32": [[0, 0, 0xFE, 0xFF], [0xFF, 0xFE, 0, 0]]}
def suite(run, work, dev=False, portable=False):
    seed, tier = (run.seed, run.tier) if run else ("1", "quick")
    rng = random.Random("c17" + seed)
    calls, regs = [], {}
    def reg(name, what): regs[name] = what
    ends = lambda e: ["little", "big"] + (["bom"] if e.startswith("utf") else [])
    def add(fun, e, en, r, n, p, rest, rec):
        n -= n % SZ.get(e, 1)
        name = "%s.%s.%s.%s" % (fun, e, en, r)
        targs = "%s, lexy::encoding_endianness::%s" % (ENC[e], en) + ("" if fun == "path" else ", %s" % {"v": "void", "r": "res"}[r])
        reg(name, "%s<%s>" % (fun, targs))
        s = rng.randrange(256)
        calls.append(("%s %d %d %d %s" % (name, s, n, len(p), " ".join(map(str, p + rest))), dict({"e": "utf8c" if e == "byte" and False else e, "en": en, "n": n, "s": s, "p": p}, **rec)))
    F0 = {"f": "file", "fault": "none", "err": 0, "script": []}
    sizes = sorted(set([0, 1, 2, 3, 4, 8, 47, 48, 49, 999, 1000, 1001, 1023, 1024, 1025, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 12289, 16384, 32766, 32767, 32768, 32769, 32770, 36863, 36864, 36865, 40960, 65535, 65536, 65537, 100001]))
    if tier != "quick": sizes += [131071, 131072, 131073, 1 << 20, (1 << 20) + 1, 3000001]
    few = [0, 1, 4, 48, 1000, 4096, 4097, 4100, 32768, 32769, 32772, 65536]
    # fault-free: every size; every encoding, byte order and byte-order mark
    for n in sizes:
        add("file", "default", "big", "v", n, [], [0], F0)
        add("file", "utf8", "bom", "r", n, [0xEF, 0xBB, 0xBF] if n % 2 else [], [0], F0)
    for e in ENC:
        for en in ends(e):
            for p in [[]] + BOMS.get(e, []):
                for n in few:
                    if e == "utf32":
                        # 32-bit units in TLC are signed: explicit content
                        k = 3; p2 = p + [b for i in range(k) for b in ((0, rng.randrange(17), rng.randrange(256), rng.randrange(128)) if en == "big" or en == "bom" and p[:1] != [0xFF] else (rng.randrange(128), rng.randrange(256), rng.randrange(17), 0))]
                        big = lambda q, o: any((q[i] if o == "big" else q[i + 3]) > 127 for i in range(0, len(q), 4))
                        body = p2[4:] if en == "bom" and p else p2
                        if big(body, "little" if en == "little" or en == "bom" and p[:1] == [0xFF] else "big"): continue
                        if n == few[0]: add("file", e, en, rng.choice("vr"), 0, p2, [0], F0)
                        elif n == 4: add("file", e, en, rng.choice("vr"), 0, p if not big(p if en != "bom" else [], "little" if en == "little" else "big") else [], [0], F0)
                        continue
                    if n % SZ.get(e, 1) == 0 and len(p) % SZ.get(e, 1) == 0: add("file", e, en, rng.choice("vr"), n, p, [0], F0)
    # faults
    D = lambda e: (e, rng.choice(ends(e)))
    for err in range(1, 134):
        add("file", "default", "big", "v", 5, [], [1, err], dict(F0, fault="open", err=err))
    for err in (1, 2, 4, 5, 13, 20, 22, 29, 40, 75):
        for n in (0, 10, 5000, 40000):
            add("file", "default", "big", "r", n, [], [2, err], dict(F0, fault="seek", err=err))
            add("file", "default", "big", "v", n, [], [3, err], dict(F0, fault="map", err=err))
    W = {"give": 0, "end": 1, "fail": 2}
    def reads(n, script):
        e, en = rng.choice([("default", "big"), ("utf8", "bom"), ("utf16", "little"), ("utf16", "big")])
        add("file", e, en, rng.choice("vr"), n, [], [4] + [x for a, b in script for x in (W[a], b)], dict(F0, fault="read", script=[list(x) for x in script]))
    for n in (2, 10, 1000, 4096, 4098, 5000, 32768, 32770, 50000):
        for err in (4, 5, 9, 11, 13, 21): reads(n, [("fail", err)]); reads(n, [("give", n // 2), ("fail", err)]); reads(n, [("fail", err), ("fail", err)])
        for k in sorted({1, n // 2, n - 1}): reads(n, [("give", k)]); reads(n, [("give", k), ("end", 0)]); reads(n, [("give", k), ("give", 1)])
        reads(n, [("end", 0)]); reads(n, [("give", n)]); reads(n, [("give", n + 5)])
        for _ in range(12 if tier == "quick" else 200):
            reads(n, [(lambda a: (a, {"give": rng.choice([1, n // 3 + 1, rng.randrange(1, n + 1)]), "end": 0, "fail": rng.choice([4, 5, 11])}[a]))(rng.choice(["give", "give", "fail", "end"])) for _ in range(rng.randrange(1, 5))])
    # paths
    for k, kind in enumerate(KINDS):
        if portable and kind == "directory": continue     # a directory cannot be opened where the stdio variant is used
        for n in ([0] if kind == "device without bytes" else [0, 10, 3000] if kind != "fifo" else [10, 3000]) + ([40000] if kind in ("link", "moved", "replaced", "appended") else []):
            add("path", "default", "big", "v", n, [], [k], {"f": "path", "kind": kind})
    # standard input
    S = lambda err=0: {"f": "stdin", "err": err}
    ssizes = [0, 1, 2, 10, 999, 1000, 1001, 1999, 2000, 2001, 3999, 4000, 4001, 4095, 4096, 4097, 7999, 8000, 8001, 16000, 16001, 32000, 65536, 65537, 100000]
    for n in ssizes:
        for how in (0, 1, 2, 3, 7):
            e, en = rng.choice([("default", "big"), ("utf8", "bom"), ("utf16", "big"), ("utf16", "bom")]) if n % 2 == 0 else ("utf8", "bom")
            add("stdin_", e, en, rng.choice("vr"), n, [], [how, 0], S())
        for how in (0, 1, 3, 4):
            for _ in range(3 if tier == "quick" else 20):
                ps = [rng.choice([1, 2, 24, 976, 999, 1000, 1001, 1024, 4096, rng.randrange(1, n + 2)]) for _ in range(rng.randrange(1, 12))]
                add("stdin_", "default", "big", rng.choice("vr"), n, [], [how, 0] + ps, S())
        for how in (0, 1):
            for err in (5, 4, 11, 13, 2) if n in (0, 10, 1000, 1001, 2000, 4000) else (5,):
                add("stdin_", "default", "big", rng.choice("vr"), n, [], [how, err] + rng.choice([[], [1] * 5, [999, 1], [1000, 1000]]), S(err))
    for e in ENC:
        for en in ends(e):
            for p in [[]] + BOMS.get(e, []):
                if len(p) % SZ.get(e, 1): continue
                if e == "utf32":
                    if en == "bom" and p: add("stdin_", e, en, "v", 0, p + ([0, 0, 1, 7] if p[0] == 0 else [7, 1, 0, 0]), [3, 0], S())
                    continue
                for n in (0, 2, 1000, 1002): add("stdin_", e, en, rng.choice("vr"), n, p, [rng.choice([0, 1, 2, 3]), 0], S())
    add("stdin_", "default", "big", "v", 0, [], [5, 21], S(21))
    add("stdin_", "default", "big", "v", 0, [], [6, 9], S(9))
    calls[:] = [(l.replace("stdin_.", "stdin."), r) for l, r in calls]
    src = {"fl_sys": HDR + STAND}
    names = sorted(regs)
    for i in range(4):
        src["fl_%d" % i] = HDR + "namespace vf {\n" + "\n".join('static bool g%d = reg("%s", &%s);' % (k, n.replace("stdin_.", "stdin."), regs[n].replace("stdin_<", "input<")) for k, n in enumerate(names) if k % 4 == i) + "\n}\n"
    src["fl_file"] = ("#undef __unix__\n#undef unix\n#undef __unix\n" if portable else "") + '#include "%s/src/input/file.cpp"\n' % REPO
    def post(r, o): return [int(x) for x in o]
    name = "c17p" if portable else "c17"
    return callrun.suite(run, work, name, "Files", calls, src, post=post, extra=("CXX=clang++", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"), link=WRAP + ["-lpthread"], mem_kb=0, consts="CONSTANT Expect <- FileExpectation\n")
