"""C08: threads that work on their own histograms never disturb each other."""
from sim import sched
sched.import_histbook()

import collections
import copy
import pickle
import random

from sim import build, gen, obs
from sim.core import sut, Violation, require, InjectedFault

import numpy
import histbook
import histbook.book

ID = "C08"
RUNS = {"quick": 1200, "thorough": 40000}
LEVEL = "exploration"
HANG_S = 300
RULE = "one run = 2 to 4 real threads, each with a random program over its own histograms and books made from shared axis objects, definitions, templates and operands, under a seeded schedule that preempts at source lines of histbook, with threads killed at seeded lines in a third of the runs; every surviving thread's observations must equal those of the same program run alone; non-trivial if there were at least 4 switches; distinct by schedule"
COMPONENTS = {"real": ["all of histbook, real threads"], "simulated": ["thread scheduling (line granularity), thread death, locks taken from threading"], "stub": []}
ASSUMPTIONS = ["native numpy calls are atomic, as under the interpreter lock", "shared operands and templates are only read"]

OPS = ["build", "template", "fill", "fill", "fill", "sum", "isum", "scale", "read", "derive", "book", "bookfill", "bookfill", "bookderive", "clear", "attach", "sample", "parse"]

def generate(rng, tier):
    opts = {"maxsize": 40, "nfixed": [0, 1, 1, 2], "ngroup": [0, 0, 1], "nprofile": [0, 0, 1], "defs": 0.4}
    specs = [gen.spec(rng, **opts) for i in range(rng.randint(1, 2))]
    threads = []
    same = rng.random() < 0.4
    for t in range(rng.choice([2, 2, 2, 3, 4])):
        ops = [{"op": rng.choice(["build", "template"]), "a": rng.randint(0, 99), "b": rng.randint(0, 99)}]
        for i in range(rng.randint(2, 6)):
            op = {"op": rng.choice(OPS), "a": rng.randint(0, 99), "b": rng.randint(0, 99)}
            if op["op"] in ("fill", "bookfill"):
                op["rows"] = gen.rows(rng, rng.choice([1, 2, 4]))
                op["shared"] = rng.random() < 0.3
                op["fail"] = rng.random() < 0.1
            ops.append(op)
        threads.append(ops)
    if same:
        threads = [threads[0] for t in threads]     # the same program on each thread
    kills = []
    if rng.random() < 0.33:
        kills.append([rng.randint(0, len(threads) - 1), int(10 ** rng.uniform(0, 3.7)), rng.choice(["error", "memory"])])
    return {"specs": specs, "threads": threads, "rows": gen.rows(rng, 4), "kills": kills, "sched": rng.randint(0, 2**30), "mean": rng.choice([1, 2, 5, 20, 100]), "maxswitch": None}

class KilledMemory(MemoryError, InjectedFault):
    pass

KILL = {"error": InjectedFault, "memory": KilledMemory}

class Shared(object):
    """What all threads may use but not change."""
    def __init__(self, plan):
        self.specs = plan["specs"]
        self.fields = sorted(set(f for sp in self.specs for f in gen.fields(sp)))
        self.axes = [[build.axis(a) for a in sp["axes"]] for sp in self.specs]
        self.defs = [dict(sp["defs"]) for sp in self.specs]
        self.templates = [self.make(i) for i in range(len(self.specs))]
        self.columns = build.columns(plan["rows"], self.fields)
        for h in self.templates:
            h.fill(self.columns)
        self.fresh = [self.make(i) for i in range(len(self.specs))]
        self.book = histbook.Book(collections.OrderedDict(("t%d" % i, self.make(i)) for i in range(len(self.specs))))
    def make(self, i):
        i %= len(self.specs)
        sp = self.specs[i]
        kw = {}
        if sp["weight"] is not None:
            kw["weight"] = sp["weight"]
        if sp["filter"] is not None:
            kw["filter"] = sp["filter"]
        if sp["defs"]:
            kw["defs"] = self.defs[i]
        return histbook.Hist(*self.axes[i], **kw)
    def state(self):
        return [obs.snap(h) for h in self.templates + self.fresh] + [obs.snap(self.book), [repr(a) for axes in self.axes for a in axes], self.defs, dict((n, c.tolist()) for n, c in self.columns.items() if c.dtype.kind != "f")]

def program(ops, sh, log):
    mine = []       # (specification index, histogram)
    books = []
    def pick(seq, n):
        return seq[n % len(seq)]
    def one(op):
        kind, a, b = op["op"], op["a"], op["b"]
        if kind == "build":
            mine.append((a % len(sh.specs), sh.make(a)))
            return "built"
        if kind == "template":
            i = a % len(sh.specs)
            t = sh.templates[i] if b % 4 else sh.fresh[i]
            how = b % 6
            h = [t.copy, t.copyonfill, t.cleared, lambda: pickle.loads(pickle.dumps(t)), lambda: histbook.Hist.fromjson(t.tojson()), lambda: copy.deepcopy(t)][how]()
            mine.append((i, h))
            return obs.content(h)
        if kind == "sample":
            s = histbook.SamplesBook(["data", "mc"], sh.book)
            books.append(s["data"])
            return s.keys(recursive=True)
        if kind == "parse":
            h = histbook.Hist(histbook.bin("x*y + z*%d" % (a % 3), 3, 0, 3), weight="where(w > 0, w, 1)", defs={"d": "x + y"})
            return [list(h.fields), repr(h)]
        if not mine:
            return "nothing"
        i, h = pick(mine, a)
        if kind == "fill":
            cols = sh.columns if op["shared"] else build.columns(op["rows"], sh.fields)
            if op["fail"]:
                cols = dict((n, c) for n, c in cols.items() if n != h.fields[0])
            h.fill(cols)
            return obs.content(h)
        if kind == "sum":
            t = sh.templates[i]
            if list(t.axis) != list(h.axis) or t.shape != h.shape:
                return "no"
            mine.append((i, h + t if b % 2 else t + h))
            return obs.content(mine[-1][1])
        if kind == "isum":
            t = sh.templates[i]
            if list(t.axis) != list(h.axis) or t.shape != h.shape:
                return "no"
            h += t
            return obs.content(h)
        if kind == "scale":
            if b % 2:
                h *= 2
            else:
                mine.append((i, h * 0.5))
            return obs.content(pick(mine, a)[1])
        if kind == "clear":
            h.clear()
            return obs.content(h)
        if kind == "attach":
            h.attach("k%d" % b, a)
            return dict(h.attachment)
        if kind == "read":
            profs = [x for x in h.axis if isinstance(x, histbook.profile)]
            return [obs.norm_table(h.table(*profs, recarray=False)), list(h.fields), repr(h), h == h.copy(), h.tojson()]
        if kind == "derive":
            from sim.props.c05 import reduce
            how = ["project", "drop", "rebinby", "rebin", "select"][b % 5]
            d = reduce(h, how, random.Random(b))
            if d is not None:
                mine.append((i, d))
                return obs.snap(d)
            return "none"
        if kind == "book":
            own = [x for j, x in mine][:3]
            books.append(histbook.Book(collections.OrderedDict(("h%d" % j, x) for j, x in enumerate(own))))
            return list(books[-1].fields)
        if kind == "bookfill":
            if not books:
                return "no book"
            bk = pick(books, b)
            cols = sh.columns if op["shared"] else build.columns(op["rows"], sh.fields)
            bk.fill(cols)
            return obs.contents(bk)
        if kind == "bookderive":
            if not books:
                return "no book"
            bk = pick(books, b)
            new = [bk.copy, bk.copyonfill, lambda: bk + bk, lambda: pickle.loads(pickle.dumps(bk)), lambda: bk * 2][a % 5]()
            books.append(new)
            return obs.contents(new)
        raise AssertionError(kind)
    for op in ops:
        try:
            r = one(op)
        except InjectedFault:
            raise
        except Exception as err:
            r = [type(err).__name__, str(err)]
        log.append([op["op"], r])
    log.append(["final", [obs.snap(h) for i, h in mine], [obs.contents(b) for b in books]])
    return log

def execute(plan, ctx):
    # alone
    solo = []
    for ops in plan["threads"]:
        sh = Shared(plan)
        before = sh.state()
        solo.append(program(ops, sh, []))
        obs.same("shared-changed", sh.state(), before, "a single thread changed what it shares")
    # together
    sh = Shared(plan)
    before = sh.state()
    sim = sched.Sim(plan["sched"], plan["mean"], plan["maxswitch"])
    logs = [[] for ops in plan["threads"]]
    kills = dict((t, (n, KILL[e])) for t, n, e in plan["kills"])
    for i, ops in enumerate(plan["threads"]):
        n, e = kills.get(i, (None, None))
        sim.add(lambda ops=ops, log=logs[i]: program(ops, sh, log), n, e)
    try:
        sim.run()
    except sched.Deadlock as err:
        raise Violation("deadlock", str(err))
    ctx.steps += len(sim.schedule)
    ctx.log("switches", sim.switches, "lines", [t.lines for t in sim.threads], "killed", [t.killed for t in sim.threads])
    ctx.log("first turns", sim.schedule[:60])
    for t, log, want in zip(sim.threads, logs, solo):
        if t.killed:
            ctx.fault("thread killed")
            ctx.probe("killed in " + (plan["threads"][t.index][len(log)]["op"] if len(log) < len(plan["threads"][t.index]) else "end"))
            # what it had done before is right too
            want = want[:len(log)]
        elif t.error is not None:
            raise Violation("thread-died", "thread {0}: {1!r}".format(t.index, t.error))
        require(len(log) == len(want), "different", "thread {0} did another number of operations".format(t.index))
        for a, b in zip(log, want):
            if not obs.eq(a, b):
                raise Violation("different", "thread {0}, {1}: {2}".format(t.index, b[0], obs.diff(a, b)))
            ctx.checked()
    obs.same("shared-changed", sh.state(), before, "shared axes, definitions, templates or operands")
    ctx.probe("line events", sum(t.lines for t in sim.threads))
    ctx.probe("switches", sim.switches)
    ctx.fault("preemption", sim.switches)
    if sim.native:
        ctx.probe("blocked natively", sim.native)
    ctx.nontrivial = sim.switches >= 4
    ctx.sigs.append(sim.schedule)

def shrink(plan):
    from sim.shrink import patched, chunks
    if plan["kills"]:
        yield patched(plan, kills=[])
    if len(plan["threads"]) > 2:
        for i in range(len(plan["threads"])):
            yield patched(plan, threads=plan["threads"][:i] + plan["threads"][i + 1:], kills=[[t - (t > i), n, e] for t, n, e in plan["kills"] if t != i])
    for i, ops in enumerate(plan["threads"]):
        for c in chunks(ops):
            if c:
                yield patched(plan, threads=plan["threads"][:i] + [c] + plan["threads"][i + 1:])
    m = plan["maxswitch"]
    for n in ([1, 2, 4, 8, 16, 32, 64, 128, 256] if m is None else [m // 2, m - 1]):
        if 0 <= n and n != m:
            yield patched(plan, maxswitch=n)
    for i, sp in enumerate(plan["specs"]):
        for t in gen.smaller_trees({"spec": sp}):
            yield patched(plan, specs=plan["specs"][:i] + [t["spec"]] + plan["specs"][i + 1:])
