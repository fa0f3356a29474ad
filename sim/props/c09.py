"""C09: filling from a Spark DataFrame equals filling from arrays; failures surface."""
from sim import sched, spark
spark.install()
sched.import_histbook(threads=True)

import random

from sim import build, gen, obs
from sim.core import sut, Violation, require, InjectedFault

import histbook

ID = "C09"
RUNS = {"quick": 5000, "thorough": 120000}
LEVEL = "exploration"
HANG_S = 120
RULE = "one run = one random histogram or nested book and a history of fills from simulated Spark DataFrames (seeded partitioning, task order, lost tasks, group order, job durations, thread schedule) and from arrays, with failing jobs, unreadable columns, missing columns and threads that cannot start; non-trivial if at least one DataFrame fill with rows succeeded; distinct by structure, partitioning, faults and schedule"
COMPONENTS = {"real": ["histbook.calc.spark", "histbook.hist", "histbook.book", "real threads under the lockstep scheduler"], "simulated": ["thread scheduling", "Spark jobs, tasks, shuffles and their failures"], "stub": ["pyspark (Column, functions, DataFrame, GroupedData) with Spark's documented null, NaN, overflow and saturation rules"]}
ASSUMPTIONS = ["the stub's semantics are those of Spark SQL (non-ANSI)", "no nulls in the data, no NaN in comparisons (Spark orders NaN above all numbers; numpy compares it as false), no NaN categories", "histograms have at least one axis that is not a profile"]

UNSUPPORTED = ()

def ok(sp):
    if not any(a["kind"] != "profile" for a in sp["axes"]):
        return False
    return True

def spec(rng, **opts):
    while True:
        sp = gen.spec(rng, **opts)
        if ok(sp):
            return sp

def fixtree(rng, node, opts):
    if "spec" in node:
        return node if ok(node["spec"]) else dict(node, spec=spec(rng, **opts))
    if node["type"] == "SystematicsBook":
        base = node["items"][0][1]["spec"]
        if not ok(base):
            new = spec(rng, **opts)
            return dict(node, items=[[n, {"spec": dict(new, attachment=x["spec"]["attachment"])}] for n, x in node["items"]])
        return node
    return dict(node, items=[[n, fixtree(rng, x, opts)] for n, x in node["items"]])

def compares_x(sp):
    return any(a["kind"] == "cut" and "x" in a["fields"] for a in sp["axes"]) or "x" in sp["ffields"]

ERRORS = ["java", "connection", "memory", "key", "exit"]

class Killed(SystemExit):
    pass

def error(kind):
    return {"java": spark.Py4JJavaError("An error occurred while calling o42.collectToPython"), "connection": ConnectionResetError("executor lost"), "memory": MemoryError("driver"), "key": KeyError("collect"), "exit": Killed("job cancelled")}[kind]

def generate(rng, tier):
    r = rng.random()
    opts = {"maxsize": 150, "spark": True, "rexpr": 0.5 if r < 0.3 else 0, "math": 0.5 if 0.3 <= r < 0.5 else 0}
    if rng.random() < 0.45:
        root = {"spec": spec(rng, **opts)}
    else:
        size = {"depth": rng.choice([1, 2]), "maxitems": rng.choice([2, 3, 5])} if rng.random() < 0.95 else {"depth": 3, "maxitems": 6}
        root = fixtree(rng, gen.tree(rng, **dict(opts, **size)), opts)
    fields = gen.treefields(root)
    ops = []
    for i in range(rng.choice([1, 2, 2, 3, 4])):
        r = rng.random()
        rows = gen.rows(rng, gen.batchsize(rng))
        if any(compares_x(sp) for p, sp in gen.leaves(root)):
            for x in rows:
                if x["x"] == "nan":
                    x["x"] = 0.25
        if r < 0.8:
            op = {"op": "spark", "rows": rows, "cuts": sorted(rng.randint(0, len(rows)) for j in range(rng.choice([0, 0, 1, 2, 4] * 6 + [20]))), "seed": rng.randint(0, 2**30), "mean": rng.choice([1, 3, 10, 50]), "early": rng.choice([0, 0, 0.3, 1]), "turns": rng.choice([0, 0, 2, 8]), "lose": rng.choice([0, 0, 0.3]), "faults": []}
            f = rng.random()
            if f < 0.12:
                op["faults"].append(["job", rng.randint(0, 3), rng.choice(ERRORS)])
                if rng.random() < 0.3:
                    op["faults"].append(["job", rng.randint(0, 3), rng.choice(ERRORS)])
            elif f < 0.24:
                op["faults"].append(["column", rng.choice(fields), rng.choice(ERRORS)])
            elif f < 0.28:
                op["faults"].append(["missing", rng.choice(fields)])
            elif f < 0.32:
                op["faults"].append(["thread", rng.randint(0, 2)])
            ops.append(op)
        elif r < 0.9:
            ops.append({"op": "array", "rows": rows})
        elif r < 0.95:
            ops.append({"op": "copy", "how": rng.choice(["copy", "copyonfill"])})
        else:
            ops.append({"op": "clear"})
    # the same histogram at a second path of the book
    share = rng.randint(0, 99) if root.get("type") == "Book" and rng.random() < 0.15 else None
    return {"root": root, "ops": ops, "ctor": "spec" in root and rng.random() < 0.15, "share": share}

def value(c, v):
    return gen.num(v)

def frame(rows, names, cuts, cluster, missing=()):
    names = [n for n in names if n not in missing]
    data = [dict((n, float(gen.num(r[n])) if n in "xyzuwq" else r[n]) for n in names) for r in rows]
    return cluster.frame(names, data, cuts)

def execute(plan, ctx):
    subject = sut("construct", build.tree, plan["root"])
    twin = build.tree(plan["root"])
    fields = gen.treefields(plan["root"])
    if plan["share"] is not None and obs.isbook(subject):
        p = gen.leaves(plan["root"])[plan["share"] % len(gen.leaves(plan["root"]))][0]
        for b in (subject, twin):
            b["again/same"] = b[p]
        ctx.probe("a histogram at two paths")
    done = 0
    for opno, op in enumerate(plan["ops"]):
        ctx.step()
        if op["op"] == "array":
            cols = build.columns(op["rows"], fields)
            sut("array fill", subject.fill, cols)
            twin.fill(cols)
        elif op["op"] == "clear":
            for p, h in build.hists(subject) + build.hists(twin):
                h.clear()
        elif op["op"] == "copy":
            # the original must stay as it is while its copy is filled
            subject = sut(op["how"], getattr(subject, op["how"]))
            twin = twin.copy()      # what was at two paths are two histograms now
        else:
            sim = sched.Sim(op["seed"], op["mean"])
            sim.early = op["early"]
            sched.SimThread.sim = sim
            cluster = spark.Cluster(random.Random(op["seed"] + 1), ctx.fault, sched.pause)
            cluster.turns, cluster.lose = op["turns"], op["lose"]
            missing, threads = [], [0]
            bad = set()
            startfail = None
            for f in op["faults"]:
                if f[0] == "job":
                    cluster.failjobs[f[1]] = error(f[2])
                elif f[0] == "column":
                    cluster.badcolumns[f[1]] = error(f[2])
                    bad.add(f[1])
                elif f[0] == "missing":
                    missing.append(f[1])
                    bad.add(f[1])
                elif f[0] == "thread":
                    startfail = f[1]
            failed = []
            def can_start():
                threads[0] += 1
                if startfail is not None and threads[0] > startfail:
                    ctx.fault("thread cannot start")
                    failed.append("thread")
                    raise RuntimeError("can't start new thread")
            sched.SimThread.can_start = staticmethod(can_start)
            df = frame(op["rows"], fields, op["cuts"], cluster, missing)
            if missing:
                ctx.fault("missing column")
            paths = [p for p, h in build.hists(twin)]
            before = obs.contents(subject)
            cols = build.columns(op["rows"], fields)
            add = {}
            for p, h in build.hists(twin):
                one = h.cleared()
                one.fill(cols)
                add[p] = obs.content(one)
            needs = dict((p, set(h.fields)) for p, h in build.hists(twin))
            raised = None
            ctor = plan["ctor"] and opno == 0
            try:
                try:
                    if ctor:
                        subject = build.hist(plan["root"]["spec"], fill=df)
                    else:
                        subject.fill(df)
                except (Exception, Killed) as err:
                    raised = err
                except sched.Deadlock as err:
                    raise Violation("deadlock", str(err))
                if raised is None:
                    after = obs.contents(subject)
            finally:
                try:
                    sim.finish()
                except sched.Deadlock as err:
                    raise Violation("deadlock", str(err))
            if raised is not None:
                after = obs.contents(subject)       # jobs still running when the fill raised have come to their end
            ctx.log("spark fill", len(op["rows"]), "rows", op["cuts"], op["faults"], "jobs", cluster.jobs, "failed", cluster.failed, "raised", repr(raised)[:80], "turns", sim.schedule[:40])
            ctx.probe("jobs", cluster.jobs)
            ctx.probe("switches", sim.switches)
            if sim.native:
                ctx.probe("waited natively", sim.native)
            ctx.sigs.append([sorted(a["kind"] for p, sp in gen.leaves(plan["root"]) for a in sp["axes"]), len(op["rows"]), op["cuts"], op["faults"], sim.schedule])
            expectfail = cluster.failed > 0 or bool(failed) or any(needs[p] & set(missing) for p in paths)
            if not expectfail:
                if raised is not None:
                    import traceback
                    tb = traceback.extract_tb(raised.__traceback__)
                    raise Violation("exception:" + type(raised).__name__, "{0} [{1}]".format(raised, "; ".join("{0}:{1} {2}".format(f.filename.rsplit("/", 1)[-1], f.lineno, f.name) for f in tb[-4:])))
                for h in dict((id(h), h) for p, h in build.hists(twin)).values():
                    h.fill(cols)
                want = obs.contents(twin)
                obs.same("content", after, want, "after a fill from Spark")
                ctx.checked(len(paths))
                if op["rows"]:
                    done += 1
            else:
                if raised is None:
                    raise Violation("failure-hidden", "faults {0}: {1} job(s) failed, but the fill returned".format(op["faults"], cluster.failed))
                if ctor:
                    subject = sut("construct", build.tree, plan["root"])
                    continue
                filled = set()
                for p, h in build.hists(twin):
                    if not obs.eq(after[p], before[p]):
                        if needs[p] & bad:
                            raise Violation("failed-job-changed", "{0}: {1}".format(p, obs.diff(after[p], before[p])))
                        if id(h) not in filled:
                            h.fill(cols)
                            filled.add(id(h))
                        obs.same("partial", after[p], obs.content(h), "histogram {0} after a failed fill".format(p))
                        ctx.probe("filled although another job failed")
                    ctx.checked()
        if op["op"] != "spark":
            obs.same("content", obs.contents(subject), obs.contents(twin), "after " + op["op"])
    sut("read", obs.snap, subject)
    ctx.nontrivial = done > 0

def shrink(plan):
    from sim.shrink import ops_and_rows, patched
    for p in ops_and_rows(plan):
        for op in p["ops"]:
            if "cuts" in op:
                op["cuts"] = [c for c in op["cuts"] if c <= len(op["rows"])]
        yield p
    for i, op in enumerate(plan["ops"]):
        if op["op"] == "spark":
            for k, v in (("faults", []), ("lose", 0), ("turns", 0), ("early", 0), ("cuts", []), ("mean", 50)):
                if op[k] != v:
                    yield patched(plan, ops=plan["ops"][:i] + [dict(op, **{k: v})] + plan["ops"][i + 1:])
    for t in gen.smaller_trees(plan["root"]):
        if all(ok(sp) for p, sp in gen.leaves(t)):
            yield patched(plan, root=t)
