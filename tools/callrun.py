"""suites of calls: observe calls of the library, validate each with a TLA+ module (spec/Calls.tla)"""
import json, os, random
from vlib import *
import gramrun

def post_ints(o): return [int(x) for x in o]

def suite(run, work, name, module, calls, sources, post=None, std="c++17", opt="-O0", extra=(), link=(), mem_kb=4000000, env=None, consts="CONSTANT Expect <- Expectation\n", tlcenv=None):
    """calls: [(line for the harness, observation record without o and c)]"""
    exe = build(work, dict(sources, main=os.path.join(HARNESS, "main.cpp")), std=std, opt=opt, extra=extra, link=link)
    log("built", len(sources) + 1, "units")
    lines = [l for l, _ in calls]
    def obs_of(o, rec):
        crash = bool(o) and isinstance(o[0], str) and o[0].startswith(("crash", "not run"))
        if crash: return dict(rec, o=[], c=1, why=o)
        try: return dict(rec, o=post(rec, o) if post else o, c=0)
        except ValueError: return dict(rec, o=[], c=1, why=["unreadable result", str(o)[:2000]])
    def check(pairs, cont=False):
        op = os.path.join(work, "obs.ndjson")
        with open(op, "w") as f:
            for o in pairs: f.write(json.dumps({k: v for k, v in o.items() if k != "why"}) + "\n")
        return tlc(work, module, "INIT Init\nNEXT Next\nINVARIANT Conforms\nINVARIANT Sound\nCHECK_DEADLOCK FALSE\n" + consts, dict({"OBS": op}, **(tlcenv or {})), extra=("-continue",) if cont else ())
    outs = run_sharded(work, exe, lines, env=env, mem_kb=mem_kb)
    obs = [obs_of(o, r) for o, (_, r) in zip(outs, calls)]
    log("observed", len(obs))
    if run is None: return check(obs, True), obs, lines
    st, out = check(obs)
    if st == "error": raise ToolError("TLC: " + out[-3000:])
    if st == "violation":
        if '"UNSOUND"' in out: raise ToolError("the specification is unsound: " + out[-2000:])
        mm = gramrun.mismatches(out)
        if not mm: raise ToolError("TLC reported a violation that could not be read: " + out[-3000:])
        j = min(mm)
        again = obs_of(run_sharded(work, exe, [lines[j-1]], env=env, mem_kb=mem_kb, tag="again")[0], calls[j-1][1])
        st2, out2 = check([again])
        if st2 == "error": raise ToolError("TLC: " + out2[-3000:])
        if st2 == "ok": again, out2 = obs[j-1], ""     # the same call gives different results
        exp = gramrun.mismatches(out2).get(1, mm[j])
        try: exp = json.loads(exp)
        except Exception: pass
        shown = again.get("why") or again["o"]
        diff = (exp, shown)
        if isinstance(exp, list) and isinstance(shown, list):
            diff = next(((a, b) for a, b in zip(exp, shown) if a != b), (exp[len(shown):][:1], shown[len(exp):][:1]))
        run.violation(name, "%s: expected %r, the library shows %r" % (lines[j-1][:200], diff[0], diff[1]), {"case": lines[j-1], "expected": exp, "shown": shown})
    g, d = tlc_stats(out)
    rng = random.Random(run.seed)
    samples = [{"call": lines[k][:200], "shown": str(obs[k]["o"])[:300]} for k in rng.sample(range(len(obs)), min(2, len(obs)))]
    return d, g, len(obs), samples

def dev(name, spec, limit=12):
    """development: print the mismatches of a suite"""
    (st, out), obs, lines = spec
    mm = gramrun.mismatches(out)
    print(name, st, len(obs), "observations", len(mm), "mismatches")
    if st == "error": print(out[-3000:])
    for j in sorted(mm)[:limit]:
        try: exp = json.loads(mm[j])
        except Exception: exp = mm[j]
        sh = obs[j-1].get("why") or obs[j-1]["o"]
        if isinstance(exp, list) and isinstance(sh, list) and len(exp) == len(sh):
            print(lines[j-1][:160], [(i, a, b) for i, (a, b) in enumerate(zip(exp, sh)) if a != b][:3])
        else: print(lines[j-1][:160], "\n   exp", str(exp)[:400], "\n   got", str(sh)[:400])
