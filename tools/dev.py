"""development aid: dev.py CORPUSMODULE [grammar...]: run all of a corpus and list every mismatch"""
import sys, os, json, tempfile, shutil, importlib, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus"))
import vlib, gramrun
from vlib import *
mod = importlib.import_module(sys.argv[1])
gs = [g for g in mod.grammars() if not sys.argv[2:] or g.name in sys.argv[2:]]
work = tempfile.mkdtemp(prefix="vdev")
try:
    obs, lines, exe = gramrun.observe(work, gs, os.environ.get("VERIF_SEED", "1"), os.environ.get("VERIF_TIER", "quick"), cap=int(os.environ.get("CAP", "0")) or None, per_tu=int(os.environ.get("TU", getattr(mod, "PER_TU", 2))), extra=getattr(mod, "FLAGS", ()), mem_kb=getattr(mod, "MEM", 4000000), hdr=getattr(mod, "HDR", "obs.hpp"))
    log("observed", len(obs))
    st, o = gramrun.validate(work, gs, obs, cont=True, module=getattr(mod, "MODULE", "Conform"))
    log(st, tlc_stats(o))
    mm = gramrun.mismatches(o)
    if st == "error": print(o[-5000:])
    for m in list(re.finditer(r'"UNSOUND",\s*(\d+)', o))[:5]:
        ob = obs[int(m.group(1)) - 1]; print("UNSOUND", gs[ob["g"]-1].name, "".join(map(chr, ob["i"])), ob["o"])
    shown = {}
    for j, exp in sorted(mm.items()):
        ob = obs[j - 1]
        k = gs[ob["g"] - 1].name
        shown[k] = shown.get(k, 0) + 1
        if shown[k] > int(os.environ.get("SHOW", "2")): continue
        print("=== %s input=%r" % (k, "".join(map(chr, ob["i"])) if all(x < 0x110000 for x in ob["i"]) else ob["i"]))
        exp = json.loads(exp) if exp.startswith("[") else exp
        nd = 0
        for a, b in zip(exp, ob["o"]):
            if a != b and nd < 3: print("  spec:", a[:250]); print("  impl:", b[:250]); nd += 1
        if len(exp) != len(ob["o"]): print("  lengths", len(exp), len(ob["o"]), (exp[len(ob["o"]):] or ob["o"][len(exp):])[:4])
    print(shown)
finally:
    shutil.rmtree(work, ignore_errors=True)
