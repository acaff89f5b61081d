import sys, os, importlib, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "corpus")]
from vlib import *
import callrun
m = importlib.import_module(sys.argv[1])
w = tempfile.mkdtemp(prefix="dev-")
try:
    try: callrun.dev(sys.argv[1], m.suite(None, w), int(sys.argv[2]) if len(sys.argv) > 2 else 12)
    except (BuildBroken, ToolError) as e: print(str(e)[:6000])
    log("done")
finally: shutil.rmtree(w, ignore_errors=True)
