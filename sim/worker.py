"""Runs simulations: `worker.py run PROP TIER SEED K P N DEADLINE OUT` executes run indices K, K+P, ... < N.
`worker.py replay FILE` executes a replay file.  `worker.py shrink FILE OUT` minimises one.
`worker.py digest PROP SEED K P N` prints a digest of each run (tools/selftest.sh)."""
import importlib
import json
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


from sim.core import Ctx, Violation, HarnessError, seeded, digest

HANG_S = 90     # seconds of processor time (a busy machine must not look like a hang), or far more on the clock

def load(prop):
    return importlib.import_module("sim.props." + prop.lower())

class Hang(BaseException):
    pass

def _alarm(signum, frame):
    raise Hang()

def run_plan(mod, plan):
    """Execute one plan. Returns (ctx, None) or (ctx, (kind, detail)). Harness errors propagate."""
    ctx = Ctx()
    limit = getattr(mod, "HANG_S", HANG_S)
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.alarm(min(4*limit, 300))
    try:
        try:
            mod.execute(plan, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.alarm(0)
        return ctx, None
    except Violation as v:
        return ctx, (v.kind, v.detail)
    except HarnessError:
        raise
    except Exception as err:
        # the code under test returned something its own interface rules out, or raised where it may not
        tb = traceback.extract_tb(sys.exc_info()[2])
        return ctx, ("exception:" + type(err).__name__, "{0} [{1}]".format(err, "; ".join("{0}:{1} {2}".format(f.filename.rsplit("/", 1)[-1], f.lineno, f.name) for f in tb[-5:])))
    except Hang:
        return ctx, ("hang", "no progress within {0} s".format(getattr(mod, "HANG_S", HANG_S)))

def draw(mod, tier, seed, i):
    rng = seeded(mod.ID, seed, i)
    return json.loads(json.dumps(mod.generate(rng, tier)))

def main_run(prop, tier, seed, k, p, n, deadline, out):
    mod = load(prop)
    t0 = time.time()
    res = {"runs": 0, "evals": 0, "steps": 0, "faults": {}, "probes": {}, "nontrivial": 0, "sigs": [], "samples": [], "violation": None, "indices": []}
    sigs = set()
    for i in range(k, n, p):
        if time.time() - t0 > deadline:
            break
        plan = draw(mod, tier, seed, i)
        res["indices"].append(i)
        ctx, bad = run_plan(mod, plan)
        res["runs"] += 1
        res["evals"] += ctx.evals
        res["steps"] += ctx.steps
        for d, s in ((res["faults"], ctx.faults), (res["probes"], ctx.probes)):
            for n_, c in s.items():
                d[n_] = d.get(n_, 0) + c
        if ctx.nontrivial:
            res["nontrivial"] += 1
            for s in ctx.sigs:
                sigs.add(digest(s))
        if len(res["samples"]) < 1 and ctx.nontrivial:
            res["samples"].append({"index": i, "plan": json.dumps(plan)[:1500], "trace": ctx.trace[:30]})
        if bad is not None:
            res["violation"] = {"index": i, "plan": plan, "kind": bad[0], "detail": bad[1], "trace": ctx.trace}
            break
    res["sigs"] = sorted(sigs)
    res["wall"] = time.time() - t0
    with open(out, "w") as f:
        json.dump(res, f)

def main_replay(path):
    with open(path) as f:
        rep = json.load(f)
    mod = load(rep["property"])
    bad = None
    plans = rep["plans"]
    if plans is None:
        plans = (draw(mod, rep["tier"], rep["seed"], i) for i in rep["history"]["indices"])
    for plan in plans:
        ctx, bad = run_plan(mod, plan)
    if bad is None:
        print("REPLAY clean")
        return 0
    print("REPLAY violation {0}".format(bad[0]))
    print(bad[1])
    for line in ctx.trace:
        print("  " + line)
    return 1

def main_shrink(path, out, budget):
    with open(path) as f:
        rep = json.load(f)
    mod = load(rep["property"])
    plan = rep["plans"][-1]
    t0 = time.time()
    tries = 0
    ctx, bad = run_plan(mod, plan)
    if bad is None or not hasattr(mod, "shrink"):
        return
    want = bad[0]
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for cand in mod.shrink(plan):
            if time.time() - t0 > budget:
                break
            tries += 1
            try:
                cand = json.loads(json.dumps(cand))
                c2, b2 = run_plan(mod, cand)
            except Exception:
                continue    # not a valid plan for the harness
            if b2 is not None and b2[0].startswith("exception:") and b2[0] != want:
                continue
            if b2 is not None and b2[0] == want:
                plan, ctx, bad = cand, c2, b2
                progress = True
                break
    rep["plans"] = [plan]
    rep["kind"], rep["detail"], rep["trace"] = bad[0], bad[1], ctx.trace
    rep["shrink_attempts"] = tries
    with open(out, "w") as f:
        json.dump(rep, f, indent=1)

def main_digest(prop, seed, k, p, n):
    """One line per run: what it did and what it saw. Must not depend on the process or the interpreter's hash seed."""
    mod = load(prop)
    for i in range(k, n, p):
        ctx, bad = run_plan(mod, draw(mod, "quick", seed, i))
        print(i, digest([ctx.trace, sorted(ctx.faults.items()), sorted(ctx.probes.items()), ctx.steps, ctx.sigs, bad]))

def main_info(prop):
    mod = load(prop)
    print(json.dumps({"runs": mod.RUNS, "level": mod.LEVEL, "rule": mod.RULE, "components": mod.COMPONENTS, "assumptions": getattr(mod, "ASSUMPTIONS", [])}))

if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(main_replay(sys.argv[2]))
    elif sys.argv[1] == "shrink":
        main_shrink(sys.argv[2], sys.argv[3], float(sys.argv[4]))
    elif sys.argv[1] == "digest":
        main_digest(sys.argv[2], *[int(x) for x in sys.argv[3:7]])
    elif sys.argv[1] == "info":
        main_info(sys.argv[2])
    else:
        prop, tier, seed, k, p, n, deadline, out = sys.argv[2:10]
        main_run(prop, tier, int(seed), int(k), int(p), int(n), float(deadline), out)
