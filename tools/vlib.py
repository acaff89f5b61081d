"""Common machinery of the checks: build harnesses from /repo's working tree, run them,
let TLC decide whether what they showed is a behaviour of the specification."""
import json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NJOBS = 8

class ToolError(Exception):
    """the machinery itself failed: neither 'held' nor 'violated'"""

class BuildBroken(Exception):
    """a program that uses only the documented interface no longer compiles"""

def log(*a):
    print("[%7.1fs]" % (time.time() - T0), *a, flush=True)
T0 = time.time()

def sh(cmd, timeout=600, cwd=None, env=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env, text=True, errors="replace")

BASE_FLAGS = ["-w", "-DLEXY_ENABLE_ASSERT=1", "-DLEXY_HAS_UNICODE_DATABASE=1", "-fmax-errors=2"]
CLANG_FLAGS = ["-ferror-limit=2" if x.startswith("-fmax") else x for x in BASE_FLAGS]

def cxx_of(extra):
    """the compiler and its further flags: CXX=... among them chooses another compiler"""
    cxx = [x[4:] for x in extra if x.startswith("CXX=")]
    return (cxx or ["g++"])[0], [x for x in extra if not x.startswith("CXX=") and not (cxx and x.startswith("-fmax-errors"))]

def compile_one(src, obj, std="c++17", opt="-O0", extra=()):
    cxx, extra = cxx_of(extra)
    cmd = [cxx, "-std=" + std, opt, *(CLANG_FLAGS if "clang" in cxx else BASE_FLAGS), *extra, "-I" + REPO + "/include", "-I" + HARNESS, "-c", src, "-o", obj]
    try:
        r = sh(cmd, timeout=600)
    except subprocess.TimeoutExpired:
        raise ToolError("compiler timeout on " + src)
    return r.returncode, r.stdout

def toolchain_ok(work):
    src = os.path.join(work, "sanity.cpp")
    open(src, "w").write("#include <vector>\n#include <string>\nint main() { return 0; }\n")
    rc, out = compile_one(src, src + ".o")
    return rc == 0

def build(work, sources, libs=(), std="c++17", opt="-O0", extra=(), link=(), exe="h"):
    """sources: {name: text or path}; returns path of the executable"""
    objs, jobs = [], []
    with cf.ThreadPoolExecutor(NJOBS) as ex:
        for name, text in sources.items():
            st = std
            if isinstance(text, tuple): text, st = text
            if text.startswith("/"): src = text
            else:
                src = os.path.join(work, name + ".cpp"); open(src, "w").write(text)
            obj = os.path.join(work, name + ".o"); objs.append(obj)
            jobs.append((name, ex.submit(compile_one, src, obj, st, opt, extra)))
    bad = [(name, j.result()[1]) for name, j in jobs if j.result()[0] != 0]
    if bad:
        if not toolchain_ok(work): raise ToolError("no working compiler")
        raise BuildBroken("\n".join("%s does not compile:\n%s" % (name, "\n".join(l[:400] for l in out.split("\n") if "error:" in l or "required from here" in l)) for name, out in bad))
    exe = os.path.join(work, exe)
    cxx, extra = cxx_of(extra)
    r = sh([cxx, "-o", exe, *objs, *extra, *link])
    if r.returncode != 0: raise BuildBroken("link: " + r.stdout[:3000])
    return exe

def run_sharded(work, exe, lines, env=None, mem_kb=4000000, tag=""):
    """lines: input lines. Returns for each line the harness' output (python object) or ["crash ..."]"""
    n = max(1, min(NJOBS, (len(lines) + 49) // 50))
    shards = [list(range(i, len(lines), n)) for i in range(n)]
    out = [None] * len(lines)
    def go(si):
        idx = shards[si]
        inp = os.path.join(work, "in%s%d.txt" % (tag, si)); outp = os.path.join(work, "out%s%d.txt" % (tag, si))
        open(inp, "w").write("".join(lines[i] + "\n" for i in idx))
        open(outp, "w").close()
        done = 0; crashes = 0
        while done < len(idx):
            limit = "ulimit -v %d; " % mem_kb if mem_kb else ""
            try:
                p = subprocess.run(["bash", "-c", limit + 'exec "$0" "$@"', exe, inp, outp, str(done)], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900, env=env, cwd=work)
            except subprocess.TimeoutExpired:
                raise ToolError("harness timeout")
            got = [l for l in open(outp, errors="replace").read().split("\n") if l]
            # a partial last line cannot occur: one fwrite and flush per line; be safe
            if got and not got[-1].endswith("]"): got.pop()
            for k in range(done, min(len(got), len(idx))): out[idx[k]] = json.loads(got[k])
            if p.returncode == 0 and len(got) == len(idx): break
            if p.returncode in (3, 4): raise ToolError("harness usage error %d" % p.returncode)
            if len(got) >= len(idx): # died after the last line (sanitizer report at exit)
                out[idx[-1]] = ["crash after: rc=%d" % p.returncode, p.stdout[-300:]]
                break
            out[idx[len(got)]] = ["crash rc=%d" % p.returncode, re.sub(r"\s+", " ", p.stdout[-300:])]
            open(outp, "a").write('["crash"]\n')
            done = len(got) + 1; crashes += 1
            if crashes > 20:
                for k in range(done, len(idx)): out[idx[k]] = ["not run: too many crashes"]
                break
    with cf.ThreadPoolExecutor(NJOBS) as ex:
        for f in [ex.submit(go, i) for i in range(n)]: f.result()
    return out

def tlc(work, module, cfg, env=None, workers=NJOBS, heap="12g", timeout=1500, extra=()):
    """returns (status, output): status in ok / violation / error"""
    cfgp = os.path.join(work, module + "_" + str(abs(hash(cfg)) % 10**8) + ".cfg")
    open(cfgp, "w").write(cfg)
    meta = tempfile.mkdtemp(dir=work)
    e = dict(os.environ); e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-config", cfgp, "-deadlock", *extra, os.path.join(SPEC, module + ".tla")]
    try:
        r = sh(cmd, timeout=timeout, env=e, cwd=work)
    except subprocess.TimeoutExpired:
        return "error", "TLC timeout"
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    o = r.stdout
    if r.returncode == 0 and "No error has been found" in o: return "ok", o
    if r.returncode in (10, 11, 12, 13) and ("is violated" in o or "violated" in o) : return "violation", o
    return "error", o

def tlc_stats(o):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", o)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)
