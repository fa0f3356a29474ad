"""C16: a histogram or book that nobody changes can be read and derived from by any number of threads at once."""
from sim.props.c08 import KILL      # loads histbook under the scheduler

import collections
import copy
import pickle
import random

from sim import build, gen, obs, sched
from sim.core import sut, Violation, require, InjectedFault

import histbook
import histbook.book

ID = "C16"
RUNS = {"quick": 1200, "thorough": 40000}
LEVEL = "exploration"
HANG_S = 300
RULE = "one run = 2 to 4 real threads, each with a random program that only reads, compares, saves, reduces and derives from the same histograms and books (never looked at before, filled, merged, scaled or restored ones), and fills only what it derived, under a seeded schedule that preempts at source lines of histbook, with threads killed at seeded lines in a quarter of the runs; every surviving thread's observations must equal those of the same program run alone, the shared objects must be unchanged, and filling them afterwards must give what a twin gives; non-trivial if there were at least 4 switches; distinct by schedule"
COMPONENTS = {"real": ["all of histbook, real threads"], "simulated": ["thread scheduling (line granularity), thread death, locks taken from threading"], "stub": []}
ASSUMPTIONS = ["native numpy calls are atomic, as under the interpreter lock"]

OPS = ["fields", "fields", "fields", "table", "tojson", "repr", "equal", "reduce", "reduce", "copy", "copy", "add", "scale", "axis", "axis", "bookfields", "bookfields", "bookread", "bookjson", "bookcopy", "bookfill", "view", "fraction", "group"]
STATES = ["fresh", "fresh", "filled", "filled", "merged", "scaled", "pickled", "json", "copyonfill"]

def generate(rng, tier):
    opts = {"maxsize": 40, "nfixed": [0, 1, 1, 2], "ngroup": [0, 0, 1], "nprofile": [0, 0, 1], "defs": 0.4, "textgroups": True}
    specs = [gen.spec(rng, **opts) for i in range(rng.randint(1, 3))]
    if rng.random() < 0.2:
        specs[0] = gen.spec(rng, **dict(opts, kinds=["cut", "cut", "bin"], nfixed=[1, 2]))
    threads = []
    for t in range(rng.choice([2, 2, 2, 3, 4])):
        threads.append([{"op": rng.choice(OPS), "a": rng.randint(0, 99), "b": rng.randint(0, 99)} for i in range(rng.randint(1, 5))])
    r = rng.random()
    if r < 0.3:
        threads = [threads[0] for t in threads]
    elif r < 0.65:
        # all do the same kind of thing to the same histogram, each in its own way
        kind, a = rng.choice(sorted(set(OPS)) + ["reduce"] * 3), rng.randint(0, 99)
        for ops in threads:
            for op in ops:
                op.update({"op": kind, "a": a})
        specs[a % len(specs)] = gen.spec(rng, **dict(opts, nfixed=[1, 2, 2, 3], nprofile=[0, 1, 2], maxsize=80))
    kills = []
    if rng.random() < 0.25:
        kills.append([rng.randint(0, len(threads) - 1), int(10 ** rng.uniform(0, 3.5)), rng.choice(["error", "memory"])])
    return {"specs": specs, "states": [rng.choice(STATES) for sp in specs], "threads": threads, "rows": gen.rows(rng, 4), "last": gen.rows(rng, 3), "kills": kills, "sched": rng.randint(0, 2**30), "mean": rng.choice([1, 2, 5, 20, 100]), "maxswitch": None}

class Shared(object):
    def __init__(self, plan):
        self.fields = sorted(set(f for sp in plan["specs"] for f in gen.fields(sp)))
        self.columns = build.columns(plan["rows"], self.fields)
        self.last = build.columns(plan["last"], self.fields)
        self.hists = [self.make(sp, s) for sp, s in zip(plan["specs"], plan["states"])]
        self.book = histbook.Book(collections.OrderedDict(("t%d" % i, h) for i, h in enumerate(self.hists)))
        self.book["sub"] = histbook.Book(u=build.hist(plan["specs"][0]), v=self.hists[0])
        self.samples = histbook.SamplesBook(["data", "mc"], histbook.Book(u=build.hist(plan["specs"][0])))
    def make(self, sp, state):
        h = build.hist(sp)
        if state != "fresh":
            h.fill(self.columns)
        if state == "merged":
            h = h + h
        elif state == "scaled":
            h *= 2
        elif state == "pickled":
            h = pickle.loads(pickle.dumps(h))
        elif state == "json":
            h = histbook.Hist.fromjson(h.tojson())
        elif state == "copyonfill":
            self.source = h
            h = h.copyonfill()
        return h
    def state(self):
        return [obs.snap(h) for h in self.hists] + [obs.snap(self.book), obs.snap(self.samples)] + ([obs.snap(self.source)] if hasattr(self, "source") else [])

def table(h):
    return obs.norm_table(h.table(*[x for x in h.axis if isinstance(x, histbook.profile)], recarray=False))

def program(ops, sh, log):
    own = []
    def one(op):
        kind, a, b = op["op"], op["a"], op["b"]
        h = sh.hists[a % len(sh.hists)]
        if kind == "fields":
            return list(h.fields)
        if kind == "table":
            return table(h)
        if kind == "tojson":
            return h.tojson()
        if kind == "repr":
            return [repr(h), str(h)]
        if kind == "equal":
            return [h == x for x in sh.hists] + [h != x for x in sh.hists] + [h == h.copy()]
        if kind == "reduce":
            from sim.props.c05 import reduce
            d = reduce(h, ["project", "drop", "rebinby", "rebin", "select"][b % 5], random.Random(b))
            if d is None:
                return "none"
            own.append(d)
            return obs.snap(d)
        if kind == "copy":
            d = [h.copy, h.copyonfill, h.cleared, lambda: pickle.loads(pickle.dumps(h)), lambda: histbook.Hist.fromjson(h.tojson()), lambda: copy.deepcopy(h), lambda: copy.copy(h)][b % 6]()
            own.append(d)
            d.fill(sh.columns)
            return obs.content(d)
        if kind == "add":
            d = h + h if b % 2 else h + h.cleared()
            own.append(d)
            if b % 3 == 0:
                d.fill(sh.columns)
            return obs.content(d)
        if kind == "scale":
            d = h * 2 if b % 2 else 0.5 * h
            own.append(d)
            return obs.content(d)
        if kind == "axis" and b % 2:
            return [repr(h.axis[str(x.expr)]) for x in h.axis]
        if kind == "axis":
            return [[repr(x), x == y, hash(x) == hash(y)] for x, y in zip(h.axis, h.copy().axis)] + [repr(h.axis[-1]), list(h.shape), repr(h.weight) if not callable(h.weight) else None, dict(h.attachment)]
        if kind == "bookfields":
            bk = sh.book if b % 3 else sh.book["sub"]
            return list(bk.fields)
        if kind == "bookread":
            return [sh.book.keys(recursive=True), len(sh.book), "sub/u" in sh.book, [sorted(sh.book["*/?"].keys(recursive=True)) if obs.isbook(sh.book["*/?"]) else "?"] if b % 2 else str(sh.book), sh.book == sh.book.copy()]
        if kind == "bookjson":
            return [sh.book.tojson(), sh.samples.tojson()] if b % 2 else [obs.contents(pickle.loads(pickle.dumps(sh.book)))]
        if kind == "bookcopy":
            d = [sh.book.copy, sh.book.copyonfill, sh.book.cleared, lambda: sh.book + sh.book, lambda: sh.book * 2][b % 5]()
            own.append(d)
            return obs.contents(d)
        if kind == "bookfill":
            books = [x for x in own if obs.isbook(x)]
            if not books:
                d = sh.book.copyonfill() if b % 2 else sh.book.copy()
                own.append(d)
                books = [d]
            books[b % len(books)].fill(sh.columns)
            return obs.contents(books[b % len(books)])
        if kind == "view":
            return [type(sh.samples["data"]).__name__, sh.samples.keys(recursive=True), list(sh.samples["data"].fields)]
        if kind == "fraction":
            cuts = [x for x in h.axis if isinstance(x, histbook.cut)]
            if cuts:
                return obs.norm_table(h.fraction(cuts[0], recarray=False))
            return obs.norm_table(h.table(count=bool(b % 2), error=bool(b % 3), recarray=False))
        if kind == "group":
            g = histbook.Hist.group(by="origin", one=h, two=h)
            own.append(g)
            return obs.content(g)
        raise AssertionError(kind)
    for op in ops:
        try:
            r = one(op)
        except InjectedFault:
            raise
        except Exception as err:
            r = [type(err).__name__, str(err)]
        log.append([op["op"], r])
    log.append(["final", [obs.snap(x) if not obs.isbook(x) else obs.contents(x) for x in own]])
    return log

def finish(sh):
    """After the threads are gone: the shared objects still work."""
    out = [list(h.fields) for h in sh.hists] + [list(sh.book.fields)]
    sh.book.fill(sh.last)
    out.append(obs.contents(sh.book))
    sh.samples["mc"].fill(sh.last)
    out.append(obs.contents(sh.samples))
    return out

def execute(plan, ctx):
    solo = []
    for ops in plan["threads"]:
        sh = Shared(plan)
        before = sh.state()
        solo.append(program(ops, sh, []))
        obs.same("shared-changed", sh.state(), before, "a single reader changed what it reads")
    twin = finish(Shared(plan))
    sh = Shared(plan)
    sim = sched.Sim(plan["sched"], plan["mean"], plan["maxswitch"])
    logs = [[] for ops in plan["threads"]]
    kills = dict((t, (n, KILL[e])) for t, n, e in plan["kills"])
    for i, ops in enumerate(plan["threads"]):
        n, e = kills.get(i, (None, None))
        sim.add(lambda ops=ops, log=logs[i]: program(ops, sh, log), n, e)
    try:
        sim.run()
    except sched.Deadlock as err:
        raise Violation("deadlock", str(err))
    ctx.steps += len(sim.schedule)
    ctx.log("switches", sim.switches, "lines", [t.lines for t in sim.threads], "killed", [t.killed for t in sim.threads])
    ctx.log("first turns", sim.schedule[:60])
    for t, log, want in zip(sim.threads, logs, solo):
        if t.killed:
            ctx.fault("thread killed")
            want = want[:len(log)]
        elif t.error is not None:
            raise Violation("thread-died", "thread {0}: {1!r}".format(t.index, t.error))
        require(len(log) == len(want), "different", "thread {0} did another number of operations".format(t.index))
        for a, b in zip(log, want):
            if not obs.eq(a, b):
                raise Violation("different", "thread {0}, {1}: {2}".format(t.index, b[0], obs.diff(a, b)))
            ctx.checked()
            ctx.probe("read: " + b[0])
    obs.same("shared-changed", sh.state(), Shared(plan).state(), "objects that were only read")
    obs.same("unusable", sut("fill after reading", finish, sh), twin, "objects that were only read, filled afterwards")
    ctx.probe("line events", sum(t.lines for t in sim.threads))
    ctx.fault("preemption", sim.switches)
    if sim.native:
        ctx.probe("blocked natively", sim.native)
    ctx.nontrivial = sim.switches >= 4
    ctx.sigs.append(sim.schedule)

def shrink(plan):
    from sim.props.c08 import shrink as s8
    for p in s8(plan):
        if len(p["specs"]) == len(plan["specs"]):
            yield p
