"""development aid: devmc.py BOUND MORE CORPUSMODULE [grammar...]: model check the machine on its own"""
import sys, os, tempfile, shutil, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus"))
import gramrun
from vlib import *
mod = importlib.import_module(sys.argv[3])
gs = [g for g in mod.grammars() if not sys.argv[4:] or g.name in sys.argv[4:]]
work = tempfile.mkdtemp(prefix="vdev")
try:
    st, o = gramrun.model_check(work, gs, int(sys.argv[1]), int(sys.argv[2]), os.environ.get("VERIF_SEED", "1"))
    log(st, len(gs), "grammars", tlc_stats(o))
    if st != "ok": print(o[:400], "\n...\n", o[-int(os.environ.get("TAIL", "6000")):])
finally:
    shutil.rmtree(work, ignore_errors=True)
