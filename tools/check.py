#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's working tree.

Every suite of the property makes the real library show what it does (harness), and TLC decides
whether each observation is a behaviour of the specification. Exit 0: all are; exit 1 and a
VIOLATION line: one is not, twice in a row; anything else: the machinery failed."""
import sys, os, json, tempfile, shutil, importlib, re, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "corpus")]
from vlib import *
import gramrun, props

def replay_file(prop, data):
    d = os.path.join(VERIF, "evidence", "replay"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop, data["suite"]))
    json.dump(data, open(p, "w"), indent=1)
    return p

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.states = self.trans = self.traces = 0
        self.samples, self.violations, self.suites = [], [], {}
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)

    def violation(self, suite, what, data):
        data = dict(property=self.prop, suite=suite, what=what, **data)
        p = replay_file(self.prop, data)
        self.violations.append((what, p))

    def suite(self, name):
        mod = importlib.import_module(name)
        work = os.path.join(self.work, name); os.makedirs(work)
        t = time.time()
        try:
            sr = mod.suite(self, work) if hasattr(mod, "suite") else gramrun.corpus_suite(self, work, mod)
            st, tr, n, samples = sr
            self.states += st; self.trans += tr; self.traces += n
            self.samples += samples
            self.suites[name] = {"observations": n, "tlc_states": st, "seconds": round(time.time() - t, 1)}
            log("suite", name, self.suites[name])
        except BuildBroken as e:
            # uses the documented interface only: it compiled when the check was written
            self.violation(name, "does not compile any more", {"output": str(e)[:6000]})
        finally:
            shutil.rmtree(work, ignore_errors=True)

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    t0 = time.time()
    run = Run(prop, tier, seed)
    rc = 2
    try:
        for s in props.SUITES[prop]:
            run.suite(s)
            if run.violations: break
        ev = {"property": prop, "tier": tier, "seed": int(seed) if seed.lstrip("-").isdigit() else 1, "level": props.LEVEL.get(prop, "model_checking"),
              "coverage": {"states": run.states, "transitions": run.trans, "traces_validated_against_impl": run.traces,
                           "samples": run.samples[:12], "suites": run.suites},
              "assumptions": props.ASSUMPTIONS, "wall_s": round(time.time() - t0, 1), "violations": len(run.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["open"]:
            if k["property"] == prop: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        if run.violations:
            for what, p in run.violations:
                print("property %s is violated: %s" % (prop, what))
                print("VIOLATION property=%s replay=%s" % (prop, p))
            rc = 1
        elif run.traces == 0:
            print("nothing was explored"); rc = 3
        else:
            print("property %s held on %d observations (%d TLC states)" % (prop, run.traces, run.states)); rc = 0
    except ToolError as e:
        print("check failed: " + str(e)[-4000:]); rc = 4
    except Exception:
        traceback.print_exc(); rc = 5
    finally:
        shutil.rmtree(run.work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
main()
