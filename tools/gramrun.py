"""grammar corpora: observe the implementation, validate against spec/Conform.tla"""
import json, os, re, random
from vlib import *
import gram

def sources(gs, per_tu=2, hdr="obs.hpp"):
    src = {"main": os.path.join(HARNESS, "main.cpp")}
    by = {}
    for g in gs: by.setdefault(g.std, []).append(g)
    for std, l in by.items():
        for i in range(0, len(l), per_tu):
            src["g_%s_%d" % (re.sub(r"\W", "", std), i)] = ("#include \"%s\"\n" % hdr + gram.TAGS + "".join(g.cpp() for g in l[i:i+per_tu]), std)
    return src

def cases(gs, seed, tier, cap=None):
    """(grammar index (1-based), units); at most cap in total: the shortest ones of each grammar, and a sample of the others"""
    per = []
    for gi, g in enumerate(gs): per.append([(gi + 1, us) for us in g.inputs(seed, tier)])
    if cap and sum(map(len, per)) > cap:
        share = cap // len(per)
        spare = cap - sum(min(len(p), share) for p in per)
        big = [i for i in range(len(per)) if len(per[i]) > share]
        for i in big:
            n = share + spare // len(big)
            if len(per[i]) <= n: continue
            p = per[i]; keep = n // 4
            rest = p[keep:]
            rng = random.Random("%s/%s/cap" % (seed, gs[i].name))
            per[i] = p[:keep] + rng.sample(rest, n - keep)
    return [c for p in per for c in p]

def observe(work, gs, seed, tier, opt="-O0", extra=(), per_tu=2, mem_kb=4000000, cap=None, hdr="obs.hpp"):
    src = sources(gs, per_tu, hdr)
    exe = build(work, src, opt=opt, extra=extra)
    log("built", len(src), "units")
    meta = cases(gs, seed, tier, cap)
    lines = [gs[gi - 1].name + " " + " ".join(map(str, us)) for gi, us in meta]
    outs = run_sharded(work, exe, lines, mem_kb=mem_kb)
    obs = [{"g": gi, "i": us, "o": o} for (gi, us), o in zip(meta, outs)]
    return obs, lines, exe

def validate(work, gs, obs, cont=False, inv="Conforms", module="Conform"):
    gp = os.path.join(work, "grammars.json"); op = os.path.join(work, "obs.ndjson")
    json.dump([g.json() for g in gs], open(gp, "w"))
    with open(op, "w") as f:
        for o in obs: f.write(json.dumps(o) + "\n")
    return tlc(work, module, "INIT Init\nNEXT Next\nINVARIANT %s\nINVARIANT Sound\nCHECK_DEADLOCK FALSE\n" % inv, {"GRAMMARS": gp, "OBS": op}, extra=("-continue",) if cont else ())

MC_CFG = "SPECIFICATION Spec\n" + "".join("INVARIANT %s\n" % i for i in ("Modes", "Pos", "Bounds", "Agenda", "NoSilentFailure", "NoGap", "Depth", "End")) + \
  "PROPERTY History\nPROPERTY Finality\nPROPERTY Progress\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n"
def model_check(work, gs, budget, more, seed, cfg=MC_CFG, extra=(), timeout=1500):
    """the machine on its own (spec/MC.tla): all inputs of each grammar up to the length
    for which there are no more than budget, and some longer ones"""
    js = []
    for g in gs:
        j = g.json(); rng = random.Random("%s/%s/mc" % (seed, g.name))
        syms = [gram.enc_units(c, g.enc) for c in g.alpha] + [list(x) for x in (g.syms or [])]
        j["chars"] = syms
        n = 1
        while sum(len(syms) ** k for k in range(n + 2)) <= budget and n < 6: n += 1
        j["bound"] = n
        ins = [us for us in g.inputs(seed, "quick") if us]
        j["more"] = rng.sample(ins, min(more, len(ins)))
        js.append(j)
    gp = os.path.join(work, "mc.json"); json.dump(js, open(gp, "w"))
    return tlc(work, "MC", cfg, {"GRAMMARS": gp}, extra=extra, timeout=timeout)

def mismatches(out):
    res = {}
    # <<"MISMATCH", j, "json">>
    for m in re.finditer(r'<<\s*"MISMATCH",\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', out):
        res[int(m.group(1))] = m.group(2).replace('\\"', '"').replace("\\\\", "\\")
    return res

def decide(run, suite, work, st, out, obs, lines, exe, revalidate, mem_kb=4000000):
    """common end of a suite: turn TLC's verdict into a confirmed violation or nothing"""
    if st == "error": raise ToolError("TLC: " + out[-3000:])
    if st == "ok": return
    if '"UNSOUND"' in out: raise ToolError("the specification is unsound: " + out[-2000:])
    mm = mismatches(out)
    if not mm: raise ToolError("TLC reported a violation that could not be read: " + out[-3000:])
    j = min(mm)
    ob, line = obs[j - 1], lines[j - 1]
    again = run_sharded(work, exe, [line], mem_kb=mem_kb, tag="again")[0]
    if again != ob["o"]:
        # not reproducible on its own: the library may depend on what it did before; decide on the second showing
        log("second showing differs", again[:3], ob["o"][:3])
    ob2 = dict(ob, o=again)
    st2, out2 = revalidate([ob2])
    if st2 == "error": raise ToolError("TLC: " + out2[-3000:])
    if st2 == "ok":
        # run everything before it as well
        shard = [l for k, l in enumerate(lines) if k % NJOBS == (j - 1) % NJOBS and k <= j - 1]
        outs = run_sharded(work, exe, shard, mem_kb=mem_kb, tag="shard")
        ob2 = dict(ob, o=outs[-1])
        st2, out2 = revalidate([ob2])
        # the same calls give different results: report what was shown the first time
        if st2 != "violation": out2, ob2 = "", ob
    exp = mismatches(out2).get(1, mm[j])
    try: exp = json.loads(exp)
    except Exception: pass
    diff = None
    if isinstance(exp, list):
        diff = next(((a, b) for a, b in zip(exp, ob2["o"]) if a != b), (exp[len(ob2["o"]):][:1], ob2["o"][len(exp):][:1]))
    run.violation(suite, "%s: expected %r, the library shows %r" % (line[:200], diff and diff[0], diff and diff[1]),
                  {"case": line, "expected": exp, "shown": ob2["o"]})

def corpus_suite(run, work, mod):
    gs = mod.grammars()
    cap = getattr(mod, "CAP", 40000) if run.tier == "quick" else getattr(mod, "CAP_THOROUGH", 900000)
    mem = getattr(mod, "MEM", 4000000)
    obs, lines, exe = observe(work, gs, run.seed, run.tier, extra=getattr(mod, "FLAGS", ()), cap=cap, mem_kb=mem, per_tu=getattr(mod, "PER_TU", 2), hdr=getattr(mod, "HDR", "obs.hpp"))
    module = getattr(mod, "MODULE", "Conform")
    st, out = validate(work, gs, obs, module=module)
    decide(run, mod.__name__, work, st, out, obs, lines, exe, lambda o: validate(work, gs, o, module=module), mem_kb=mem)
    g, d = tlc_stats(out)
    rng = random.Random(run.seed)
    samples = [{"grammar": gs[o["g"]-1].name, "rule": gs[o["g"]-1].prods[-1].rule.cpp[:200], "input": o["i"], "shown": [x[:160] for x in o["o"][:6]]}
               for o in rng.sample(obs, min(2, len(obs)))]
    if hasattr(mod, "MC") and not mod.MC: return d, g, len(obs), samples
    budget, more = getattr(mod, "MC", (130, 0)) if run.tier == "quick" else getattr(mod, "MC_THOROUGH", (3000, 40))
    st, out = model_check(work, gs, budget, more, run.seed, timeout=400 if run.tier == "quick" else 3000)
    if st != "ok": raise ToolError("the machine on its own does not satisfy its properties (spec/MC.tla): " + out[-3000:])
    mg, md = tlc_stats(out)
    log("machine on its own:", md, "states")
    samples.append({"machine on its own (spec/MC.tla)": "%d grammars, every input up to the length for which there are at most %d of them, step by step: %d states" % (len(gs), budget, md)})
    return d + md, g + mg, len(obs), samples
