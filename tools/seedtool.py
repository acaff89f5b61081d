"""development aid: make and try planted bugs (in /repo's working tree, undone straight afterwards).
   seedtool.py try ID...   : apply, build, tests, demo, the property's check; then undo"""
import sys, os, json, subprocess, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
R = os.environ.get("SEED_REPO", "/repo") # a clone to work in, with a build folder of its own
DEMO = '''#!/bin/bash
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -w %s -I"$PWD/include" "$d/demo.cpp" %s -o "$t/demo" || exit 2
cd "$t" && timeout 60 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def clean(): sh("git -C %s checkout -q -- ." % R)
def make(id, prop, edits, demo, needs, breaks, flags="", src=""):
    assert sh("git -C %s status --porcelain" % R).stdout == "", "repo not clean"
    try:
        for f, old, new in edits:
            p = R + "/" + f; t = open(p).read()
            assert t.count(old) >= 1, (id, "not found", old)
            assert t.count(old) == 1, (id, "not unique %d" % t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        d = os.path.join(S, id); os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
    finally: clean()
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO % (flags, src)); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
def demo(id): return sh(["bash", os.path.join(S, id, "demo.sh")], cwd=R).returncode
def tests():
    if R != "/repo":
        r = sh("ninja -C %s/_build all lexy_example_turing" % R)
        if r.returncode: return "BUILD BROKEN " + r.stdout[-600:]
        sh("rm -rf %s/_build/w" % R); sh("/usr/bin/python3 /tmp/run_doctest_copy.py %s/_build/w %s/_build/lines" % (R, R)); sh("/usr/bin/python3 /opt/vp/results.py /tmp/seed_out.json lines:%s/_build/lines" % R)
    else: r = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
    if r.returncode: return "BUILD/TEST BROKEN " + r.stdout[-600:]
    base = set(json.load(open("/opt/vp/BASELINE.json"))["passed"]) if "passed" in json.load(open("/opt/vp/BASELINE.json")) else None
    o = json.load(open("/tmp/seed_out.json"))
    return "tests: %d passed, %d failed %s" % (len(o["passed"]), len(o["failed"]), o["failed"][:3] if len(o["failed"]) > 1 else "")
def tryit(ids, with_tests=True, check=True):
    for id in ids:
        assert sh("git -C %s status --porcelain" % R).stdout == "", "repo not clean"
        d0 = demo(id)
        prop = json.load(open(os.path.join(S, id, "meta.json")))["property"]
        try:
            a = sh(["git", "-C", R, "apply", os.path.join(S, id, "patch.diff")])
            if a.returncode: print(id, "does not apply", a.stdout); continue
            d1 = demo(id)
            t = tests() if with_tests else ""
            c = ""
            if check:
                r = sh(["python3", os.path.join(V, "tools", "check.py"), prop], cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VERIF_REPO=R))
                c = "check rc=%d %s" % (r.returncode, (re.findall(r"property .*violated.*", r.stdout) or r.stdout.strip().split("\n")[-1:])[0][:300])
            print("%s [%s] demo clean=%d patched=%d | %s | %s" % (id, prop, d0, d1, t, c), flush=True)
        finally: clean()
if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.path.basename(x) for x in glob.glob(S + "/*"))
    tryit(ids, with_tests=sys.argv[1] == "try")
