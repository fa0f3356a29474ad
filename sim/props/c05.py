"""C05: operations affect only the object they are applied to."""
import collections
import copy
import json
import pickle
import random

from sim import build, gen, obs, faulty
from sim.core import sut, Violation, require

import numpy
import histbook
import histbook.book

ID = "C05"
RUNS = {"quick": 16000, "thorough": 400000}
LEVEL = "exploration"
RULE = "one run = a population of live histograms and books (made from shared axis objects, shared definitions and attachment dicts, or derived from one another) under a random history of mutating, deriving, reading and failing operations; the expected state of every object is tracked and every object is compared with it at random moments and at the end; non-trivial if an object was changed while objects derived from it or its sources were alive; distinct by the sequence of operations and the axes"
COMPONENTS = {"real": ["Hist, books, axes, derivations, serialisation"], "simulated": ["operation scheduler, data source faults"], "stub": []}
ASSUMPTIONS = ["a view shares its histograms and attachments with the viewed book by design", "values inside attachments are the caller's objects"]

DERIVE = ["copy", "copyonfill", "copyonfill", "cleared", "+", "*", "rmul", "pickle", "json", "jsontext", "deepcopy", "select", "project", "drop", "rebin", "rebinby", "group", "weight", "filter", "systematic"]
BOOKDERIVE = ["copy", "copyonfill", "copyonfill", "cleared", "+", "*", "pickle", "json", "deepcopy", "view", "samples", "group"]
READ = ["table", "table2", "fraction", "tojson", "str", "eq", "fields", "groupkeys", "getitem", "axis", "compatible", "items", "plot"]
FAIL = ["missing", "length", "source", "column", "bomb", "iadd", "add", "imul", "select", "project", "rebin", "togroup", "detach", "group", "bookset", "bookdel", "bookiadd"]

def generate(rng, tier):
    swarm = rng.random() < 0.4      # a run about a few kinds of derivations only
    derive = [rng.choice(DERIVE) for i in range(rng.choice([1, 2, 3]))] if swarm else DERIVE
    bookderive = [rng.choice(BOOKDERIVE) for i in range(rng.choice([1, 2]))] if swarm else BOOKDERIVE
    specs = [gen.spec(rng, attach=True, maxsize=80, ngroup=[0, 1, 1, 2] if swarm else [0, 0, 1, 1, 2]) for i in range(1 if swarm else rng.choice([1, 1, 2]))]
    ops = [{"op": "new", "a": rng.randint(0, 99), "b": 1, "c": 0, "look": True, "share": rng.random() < 0.6}]
    if rng.random() < (0.6 if swarm else 0.2):
        # two filled operands to begin with
        for i in (0, 1):
            if i:
                ops.append({"op": "new", "a": ops[0]["a"], "b": 1, "c": 0, "look": False, "share": rng.random() < 0.6})
            ops.append({"op": "fill", "rows": gen.rows(rng, rng.choice([1, 1, 2, 3])), "book": False, "a": i, "b": 0, "c": 0, "look": False})
    for i in range(rng.choice([4, 6, 8, 10, 12] if tier == "quick" else [6, 10, 15, 25])):
        r = rng.random()
        a, b, c = rng.randint(0, 999), rng.randint(0, 999), rng.randint(0, 999)
        if r < 0.06:
            op = {"op": "new", "share": rng.random() < 0.6}
        elif r < 0.14:
            op = {"op": "book", "nest": rng.random() < 0.3, "kind": rng.choice(["Book", "Book", "Book", "ChannelsBook", "GenericBook"])}
        elif r < 0.36:
            op = {"op": "fill", "rows": gen.rows(rng, rng.choice([0, 1, 2, 3, 5])), "book": rng.random() < 0.4}
        elif r < 0.40:
            op = {"op": "clear", "book": rng.random() < 0.3}
        elif r < 0.45:
            op = {"op": "imul", "by": rng.choice([2, 0.5, -1, 0, 3]), "book": rng.random() < 0.3}
        elif r < 0.51:
            op = {"op": "iadd", "book": rng.random() < 0.35}
        elif r < 0.55:
            op = {"op": "attach", "book": rng.random() < 0.3, "key": rng.choice(["fit", "note", "deep"]), "value": rng.choice([1, "t", [1, 2]]), "detach": rng.random() < 0.3}
        elif r < 0.57:
            op = {"op": "togroup", "key": rng.choice(["one", "two", "aa"])}
        elif r < 0.61:
            op = {"op": "bookedit", "del": rng.random() < 0.4}
        elif r < 0.80:
            op = {"op": "derive", "how": rng.choice(derive), "by": rng.choice([2, 0.5, 1])}
        elif r < 0.88:
            op = {"op": "bookderive", "how": rng.choice(bookderive), "by": rng.choice([2, 0.5, 1])}
        elif r < 0.94:
            op = {"op": "read", "how": rng.choice(READ)}
        else:
            op = {"op": "fail", "how": rng.choice(FAIL), "exc": rng.choice(["error", "ioerror", "memory", "interrupt", "keyerror"]), "nth": rng.randint(0, 6), "rows": gen.rows(rng, 3), "book": rng.random() < 0.4}
        op.update({"a": a, "b": b, "c": c, "look": rng.random() < 0.5})
        ops.append(op)
        while op["op"] in ("derive", "bookderive") and rng.random() < 0.45:
            # right away, something happens to what was derived or to what it was derived from
            do = rng.choice(["fill", "fill", "fill", "imul", "iadd", "clear", "attach"])
            op2 = {"op": "poke", "do": do, "on": rng.choice([0, 0, 1, 1, 2]), "a": rng.randint(0, 999), "b": rng.randint(0, 999), "c": rng.randint(0, 999), "look": rng.random() < 0.7}
            if do == "fill":
                op2["rows"] = gen.rows(rng, rng.choice([1, 2, 3, 5]))
            elif do == "imul":
                op2["by"] = rng.choice([2, 0.5, -1, 0, 3])
            elif do == "attach":
                op2.update({"key": rng.choice(["fit", "note", "deep"]), "value": rng.choice([1, "t", [1, 2]]), "detach": rng.random() < 0.3})
            ops.append(op2)
    return {"specs": specs, "ops": ops}

# ---------------------------------------------------------------- the population and its expected state

MAXHISTS, MAXBOOKS = 14, 7

class World(object):
    def __init__(self):
        self.hists = collections.OrderedDict()      # id -> [object, expected content, expected meta]
        self.books = collections.OrderedDict()      # id -> [object, expected type, attachment, items]
        self.pairs = 0
        self.picks = []         # objects the current operation is about
        self.recent = []        # what was derived last, and its sources
        self.force = None

    def add(self, x):
        """Start to track an object (and everything in it) from what it shows now."""
        if obs.isbook(x):
            if id(x) not in self.books:
                items = x.items()
                self.books[id(x)] = [x, type(x).__name__, dict(x.attachment), items]
                for n, y in items:
                    self.add(y)
        elif id(x) not in self.hists:
            self.hists[id(x)] = [x, obs.content(x), meta(x)]
        return x

    def hist(self, n):
        hs = list(self.hists.values())
        x = hs[n % len(hs)][0] if hs else None
        if self.force is not None and not obs.isbook(self.force):
            x = self.force
        self.picks.append(x)
        return x

    def book(self, n, types=None):
        bs = [r[0] for r in self.books.values() if types is None or isinstance(r[0], types)]
        x = bs[n % len(bs)] if bs else None
        if self.force is not None and obs.isbook(self.force):
            x = self.force if types is None or isinstance(self.force, types) else None
        self.picks.append(x)
        return x

    def inside(self, x):
        """Histograms in a book by its expected structure, one entry per path."""
        if not obs.isbook(x):
            return [("", x)]
        out = []
        for n, y in self.books[id(x)][3]:
            for m, z in self.inside(y):
                out.append((n + "/" + m if m else n, z))
        return out

    def contains(self, x, y):
        return x is y or (obs.isbook(x) and any(self.contains(z, y) for n, z in self.books[id(x)][3]))

    def verify(self, where):
        for r in self.hists.values():
            got = obs.content(r[0])
            if not obs.eq(got, r[1]):
                raise Violation("content-changed", "{0}: histogram {1}: {2}".format(where, self.name(r[0]), obs.diff(got, r[1])))
            got = meta(r[0])
            if not obs.eq(got, r[2]):
                raise Violation("metadata-changed", "{0}: histogram {1}: {2}".format(where, self.name(r[0]), obs.diff(got, r[2])))
        for r in self.books.values():
            if type(r[0]).__name__ != r[1] or not obs.eq(obs._plain(dict(r[0].attachment)), obs._plain(r[2])):
                raise Violation("book-changed", "{0}: {1}: attachment {2} expected {3}".format(where, self.name(r[0]), r[0].attachment, r[2]))
            attachments(r[0])
            got = r[0].items()
            if [n for n, x in got] != [n for n, x in r[3]] or any(x is not y for (n, x), (m, y) in zip(got, r[3])):
                raise Violation("book-changed", "{0}: {1}: items {2} expected {3}".format(where, self.name(r[0]), [n for n, x in got], [n for n, x in r[3]]))

    def name(self, x):
        for reg, letter in ((self.hists, "h"), (self.books, "b")):
            for i, k in enumerate(reg):
                if k == id(x):
                    return letter + str(i)
        return "?"

def meta(h):
    m = obs._plain(obs.meta(h))
    m["has"] = sorted(h.attachment)
    attachments(h)
    return m

def attachments(x):
    """Every way of reading the attachments agrees."""
    for k, v in x.attachment.items():
        require(x.has(k) and obs.eq(obs._plain(x.get(k)), obs._plain(v)) and obs.eq(obs._plain(x.get(k, "default")), obs._plain(v)), "attachment-reading", k)
    require(not x.has("no such attachment") and x.get("no such attachment", "default") == "default", "attachment-reading", "default")
    try:
        x.get("no such attachment")
    except KeyError:
        pass
    else:
        raise Violation("attachment-reading", "a missing attachment was found")

def data(rows, dtype="f8"):
    cols = build.columns(rows, gen.COLUMNS, dtype)
    for s in ("source", "src"):
        cols[s] = numpy.array(["s%d" % (i % 2) for i in range(len(rows))], dtype="U4")
    return cols

def sameaxes(a, b):
    return list(a.axis) == list(b.axis) and a.shape == b.shape

def mergeable(w, a, b):
    if obs.isbook(a) != obs.isbook(b):
        return False
    if not obs.isbook(a):
        return sameaxes(a, b)
    if type(a) is not type(b):
        return False
    mine = dict(w.books[id(a)][3])
    return all(n not in mine or mergeable(w, mine[n], y) for n, y in w.books[id(b)][3])

def unique(pairs):
    return list(collections.OrderedDict((id(h), h) for p, h in pairs).values())

# ---------------------------------------------------------------- operations

def execute(plan, ctx):
    w = World()
    shared = [([build.axis(a) for a in sp["axes"]], dict(sp["defs"]), copy.deepcopy(sp.get("attachment") or {})) for sp in plan["specs"]]
    names = []
    derived = 0
    for op in plan["ops"]:
        ctx.step()
        w.picks = []
        if op["op"] == "poke":
            what = poke(plan, op, w, shared, ctx)
        else:
            before = set(w.hists) | set(w.books)
            what = step(plan, op, w, shared, ctx)
            if op["op"] in ("derive", "bookderive") and what is not None:
                new = [r[0] for reg in (w.books, w.hists) for i, r in reg.items() if i not in before]
                if new:
                    w.recent = [new[0]] + [x for x in w.picks if x is not None]
        names.append(what)
        ctx.log(what, "on", op["a"], op["b"], "->", len(w.hists), "histograms", len(w.books), "books")
        if what is None:
            continue
        if op["op"] in ("derive", "bookderive"):
            derived += 1
        elif derived and op.get("do", op["op"]) in ("fill", "imul", "iadd", "clear", "attach", "togroup", "bookedit"):
            ctx.nontrivial = True
        if op["look"]:
            w.verify("after " + what)
            ctx.checked(len(w.hists) + len(w.books))
    w.verify("at the end, after " + str(names[-1]))
    ctx.checked(len(w.hists) + len(w.books))
    for (axes, defs, att), sp in zip(shared, plan["specs"]):
        require(defs == sp["defs"] and att == (sp.get("attachment") or {}) and [repr(a) for a in axes] == [repr(build.axis(a)) for a in sp["axes"]], "inputs-changed", "axes, definitions or attachments given to the constructor were changed")
    ctx.sigs.append([names, [[a["kind"] for a in sp["axes"]] for sp in plan["specs"]]])

def poke(plan, op, w, shared, ctx):
    if not w.recent:
        return None
    x = w.recent[min(op["on"], len(w.recent) - 1)]
    w.force = x
    try:
        what = step(plan, dict(op, op=op["do"], book=obs.isbook(x)), w, shared, ctx)
    finally:
        w.force = None
    if what is not None and op["on"] == 0:
        ctx.probe("poked derived")
    return what

def delta(h, cols):
    """What filling this histogram adds, according to a fresh one."""
    ref = h.cleared()
    if not ref.fields:
        return None
    ref.fill(cols)
    return obs.content(ref)

def step(plan, op, w, shared, ctx):
    kind = op["op"]
    if kind == "new":
        if len(w.hists) >= MAXHISTS:
            return None
        i = op["a"] % len(plan["specs"])
        sp = plan["specs"][i]
        if op["share"]:
            axes, defs, att = shared[i]
            kw = {}
            if sp["weight"] is not None:
                kw["weight"] = sp["weight"]
            if sp["filter"] is not None:
                kw["filter"] = sp["filter"]
            if sp["defs"]:
                kw["defs"] = defs
            if att:
                kw["attachment"] = att
            if op["b"] % 5 == 0:
                kw["systematic"] = [op["b"]]
            h = sut("construct", histbook.Hist, *axes, **kw)
        else:
            h = sut("construct", build.hist, sp)
        w.add(h)
        return "new"

    if kind == "book":
        if len(w.books) >= MAXBOOKS:
            return None
        rng = random.Random(op["b"])
        items = collections.OrderedDict()
        pool = [r[0] for r in w.hists.values()]
        rng.shuffle(pool)
        for n, h in zip(["p", "q", "r"], pool[:rng.randint(1, 3)]):
            items[n] = h
        if op["nest"] and w.books:
            items["sub"] = w.book(op["c"])
        cls = {"Book": histbook.Book, "ChannelsBook": histbook.ChannelsBook, "GenericBook": histbook.book.GenericBook}[op["kind"]]
        w.add(sut("book", cls, items))
        return "book"

    if kind == "fill":
        cols = data(op["rows"])
        before = dict((n, c.copy()) for n, c in cols.items())
        if op["book"]:
            b = w.book(op["a"], histbook.Book)
            if b is None or not b.fields:
                return None
            hs = unique(w.inside(b))
            if any(not h.cleared().fields for h in hs):
                return None
            ds = [delta(h, cols) for h in hs]
            sut("fill", b.fill, cols)
        else:
            h = w.hist(op["a"])
            if not h.cleared().fields:
                return None
            hs, ds = [h], [delta(h, cols)]
            sut("fill", h.fill, cols)
        for h, d in zip(hs, ds):
            r = w.hists[id(h)]
            r[1] = obs.addcontent(r[1], d)
        for n, c in before.items():
            require(numpy.array_equal(c, cols[n]) or (c.dtype.kind == "f" and numpy.array_equal(numpy.isnan(c), numpy.isnan(cols[n])) and numpy.array_equal(c[~numpy.isnan(c)], cols[n][~numpy.isnan(c)])), "inputs-changed", "filling changed the input array " + n)
        return "fill" + ("-book" if op["book"] else "")

    if kind == "clear":
        x = w.book(op["a"]) if op["book"] else w.hist(op["a"])
        if x is None:
            return None
        sut("clear", x.clear)
        for h in unique(w.inside(x)):
            w.hists[id(h)][1] = None
        return "clear" + ("-book" if op["book"] else "")

    if kind == "imul":
        x = w.book(op["a"]) if op["book"] else w.hist(op["a"])
        if x is None or len(unique(w.inside(x))) != len(w.inside(x)):
            return None
        def imul(x):
            y = x
            y *= op["by"]
            return y
        require(sut("*=", imul, x) is x, "not-in-place", "*= returned another object")
        for p, h in w.inside(x):
            r = w.hists[id(h)]
            r[1] = obs.mulcontent(r[1], op["by"])
        return "imul" + ("-book" if op["book"] else "")

    if kind == "iadd":
        x = w.book(op["a"]) if op["book"] else w.hist(op["a"])
        if x is None:
            return None
        pool = [r[0] for r in (w.books if op["book"] else w.hists).values() if mergeable(w, x, r[0])]
        y = pool[op["b"] % len(pool)]
        if op["book"]:
            mine, other = w.inside(x), w.inside(y)
            if len(unique(mine)) != len(mine) or set(id(h) for p, h in mine) & set(id(h) for p, h in other) or w.contains(y, x) or isinstance(x, histbook.SystematicsBook):
                return None
            sub = lambda b: [b] + [z for n, c in w.books[id(b)][3] if obs.isbook(c) for z in sub(c)]
            if len(set(map(id, sub(x)))) != len(sub(x)) or set(map(id, sub(x))) & set(map(id, sub(y))):
                return None
        def iadd(x, y):
            z = x
            z += y
            return z
        require(sut("+=", iadd, x, y) is x, "not-in-place", "+= returned another object")
        def merge(x, y):
            if not obs.isbook(x):
                r = w.hists[id(x)]
                r[1] = obs.addcontent(r[1], w.hists[id(y)][1])
                return
            r = w.books[id(x)]
            mine = dict(r[3])
            for n, z in w.books[id(y)][3]:
                if n in mine:
                    merge(mine[n], z)
                else:
                    new = x[n]
                    require(not w.contains(y, new), "merged-by-reference", "+= stored the other book's own " + n)
                    w.add(new)
                    samestate(w, new, z)
                    r[3] = r[3] + [(n, new)]
        merge(x, y)
        return "iadd" + ("-book" if op["book"] else "")

    if kind == "attach":
        x = w.book(op["a"]) if op["book"] else w.hist(op["a"])
        if x is None:
            return None
        if op["book"]:
            if any(isinstance(r[0], histbook.book.ViewBook) for r in w.books.values()):
                return None
            att = w.books[id(x)][2]
        else:
            att = None
        key = op["key"]
        if op["detach"]:
            if not x.has(key):
                return None
            sut("detach", x.detach, key)
            if op["book"]:
                w.books[id(x)][2] = dict((k, v) for k, v in att.items() if k != key)
            else:
                r = w.hists[id(x)][2]
                w.hists[id(x)][2] = dict(r, attachment=dict((k, v) for k, v in r["attachment"].items() if k != key), has=[k for k in r["has"] if k != key])
        else:
            value = copy.deepcopy(op["value"])
            sut("attach", x.attach, key, value)
            if op["book"]:
                w.books[id(x)][2] = dict(att, **{key: value})
            else:
                r = w.hists[id(x)][2]
                w.hists[id(x)][2] = dict(r, attachment=dict(r["attachment"], **{key: value}), has=sorted(set(r["has"]) | set([key])))
        return "attach" + ("-book" if op["book"] else "")

    if kind == "togroup":
        gs = [r[0] for r in w.hists.values() if len(r[0].axis) > 1 and isinstance(r[0].axis[0], histbook.groupby)]
        if not gs:
            return None
        g = gs[op["a"] % len(gs)]
        hs = [r[0] for r in w.hists.values() if list(r[0].axis) == list(g.axis)[1:] and r[0].shape == g.shape]
        if not hs:
            return None
        h = hs[op["b"] % len(hs)]
        sut("togroup", g.togroup, **{op["key"]: h})
        r = w.hists[id(g)]
        r[1] = obs.addcontent(r[1], None if w.hists[id(h)][1] is None else {obs.key(op["key"]): w.hists[id(h)][1]})
        return "togroup"

    if kind == "bookedit":
        b = w.book(op["a"], (histbook.Book, histbook.ChannelsBook, histbook.SamplesBook))
        if b is None or isinstance(b, histbook.SystematicsBook):
            return None
        r = w.books[id(b)]
        if op["del"]:
            if len(r[3]) < 2:
                return None
            n, x = r[3][op["b"] % len(r[3])]
            def remove():
                del b[n]
            sut("del", remove)
            r[3] = [(m, y) for m, y in r[3] if m != n]
            return "bookdel"
        if isinstance(b, histbook.SamplesBook):
            return None
        h = w.hist(op["b"])
        n = ["p", "q", "new"][op["c"] % 3]
        def put():
            b[n] = h
        sut("set", put)
        if n in [m for m, y in r[3]]:
            r[3] = [(m, h if m == n else y) for m, y in r[3]]
        else:
            r[3] = r[3] + [(n, h)]
        return "bookset"

    if kind == "derive":
        if len(w.hists) >= MAXHISTS:
            return None
        return derive(w.hist(op["a"]), op, w, ctx)

    if kind == "bookderive":
        if len(w.books) >= MAXBOOKS or len(w.hists) >= MAXHISTS + 6 or not w.books:
            return None
        return bookderive(w.book(op["a"]), op, w, ctx)

    if kind == "read":
        return read(op, w)

    if kind == "fail":
        return fail(op, w, ctx)

    raise AssertionError(kind)

def samestate(w, x, y, metadata=True):
    """x was just derived from y: it must show the same."""
    if obs.isbook(x):
        require(obs.isbook(y) and [n for n, z in w.books[id(x)][3]] == [n for n, z in w.books[id(y)][3]], "derived", "names differ")
        for (n, a), (m, b) in zip(w.books[id(x)][3], w.books[id(y)][3]):
            samestate(w, a, b, metadata)
        return
    obs.same("derived-content", w.hists[id(x)][1], w.hists[id(y)][1])
    if metadata:
        obs.same("derived-meta", w.hists[id(x)][2], w.hists[id(y)][2])

def derive(h, op, w, ctx):
    how = op["how"]
    exp = w.hists[id(h)]
    rng = random.Random(op["c"])
    if how in ("copy", "copyonfill", "cleared"):
        d = sut(how, getattr(h, how))
        w.add(d)
        if how == "cleared":
            require(w.hists[id(d)][1] is None, "derived-content", "cleared() has content")
            obs.same("derived-meta", w.hists[id(d)][2], exp[2], how)
        else:
            samestate(w, d, h)
    elif how == "+":
        pool = [r[0] for r in w.hists.values() if sameaxes(h, r[0])]
        if op["c"] % 4 and len(pool) > 1:
            pool = [x for x in pool if x is not h]
        y = pool[op["b"] % len(pool)]
        w.picks.append(y)
        d = w.add(sut("+", lambda: h + y))
        obs.same("derived-content", w.hists[id(d)][1], obs.addcontent(exp[1], w.hists[id(y)][1]), "+")
    elif how in ("*", "rmul"):
        d = w.add(sut("*", lambda: h * op["by"] if how == "*" else op["by"] * h))
        obs.same("derived-content", w.hists[id(d)][1], obs.mulcontent(exp[1], op["by"]), "*")
    elif how == "pickle":
        d = w.add(sut("pickle", lambda: pickle.loads(pickle.dumps(h, rng.choice([0, 2, -1])))))
        samestate(w, d, h)
    elif how == "deepcopy":
        d = w.add(sut("deepcopy", copy.deepcopy, h))
        samestate(w, d, h)
    elif how == "json":
        d = w.add(sut("json", lambda: histbook.Hist.fromjson(h.tojson())))
        samestate(w, d, h)
    elif how == "jsontext":
        if any(isinstance(a, histbook.groupby) and not a.expr in ("g", "source", "src") for a in h.axis):
            return None
        d = w.add(sut("json", lambda: histbook.Hist.fromjson(json.loads(json.dumps(h.tojson())))))
        samestate(w, d, h)
    elif how == "group":
        pool = [r[0] for r in w.hists.values() if sameaxes(h, r[0])]
        parts = dict((n, x) for n, x in zip(["one", "two"], rng.sample(pool, min(len(pool), 2))))
        by = ["source", "src"][op["b"] % 2]
        if by in [a.expr for a in h.axis]:
            return None
        try:
            d = histbook.Hist.group(by=by, **parts)
        except TypeError:
            return "group-rejected"
        w.add(d)
        want = {}
        for n, x in parts.items():
            if w.hists[id(x)][1] is not None:
                want[obs.key(n)] = w.hists[id(x)][1]
        obs.same("derived-content", w.hists[id(d)][1], want or None, "group")
    elif how in ("weight", "filter", "systematic"):
        if how == "systematic" and h.has("systematic"):
            return None
        d = sut(how, getattr(h, how), {"weight": "w", "filter": "y > 0", "systematic": [1]}[how])
        w.add(d)
        require(w.hists[id(d)][1] is None, "derived-content", "a copy with another {0} has content".format(how))
    else:
        d = reduce(h, how, rng)
        if d is None:
            return None
        require(d is not h, "derived-same", how + " returned the histogram itself")
        w.add(d)
    return "derive-" + how

def reduce(h, how, rng):
    """A random reduction; None if this histogram has none."""
    axes = list(h.axis)
    ind = [a for a in axes if not isinstance(a, histbook.profile)]
    profs = [a for a in axes if isinstance(a, histbook.profile)]
    try:
        if how == "project":
            if not ind:
                return None
            return h.project(*[a for a in ind if rng.random() < 0.6])
        if how == "drop":
            if not profs:
                return None
            return h.drop(*rng.sample(profs, rng.randint(1, len(profs))))
        if how == "rebinby":
            c = [a for a in ind if isinstance(a, (histbook.bin, histbook.intbin, histbook.split, histbook.groupbin))]
            return h.rebinby(rng.choice(c), rng.choice([1, 2, 3])) if c else None
        if how == "rebin":
            c = [a for a in ind if isinstance(a, (histbook.bin, histbook.split))]
            if not c:
                return None
            a = rng.choice(c)
            edges = list(a.edges) if isinstance(a, histbook.split) else [a.low + i * a.binwidth for i in range(a.numbins + 1)]
            keep = [e for e in edges if rng.random() < 0.7]
            return h.rebin(a, keep if len(keep) > 1 else edges)
        if how == "select":
            c = [a for a in ind if isinstance(a, (histbook.bin, histbook.split, histbook.groupby, histbook.cut, histbook.groupbin))]
            if not c:
                return None
            a = rng.choice(c)
            if isinstance(a, histbook.cut):
                return h.select(a.expr)
            if isinstance(a, histbook.groupby):
                return h.select("({0}) == 'aa'".format(a.expr) if a.expr in ("g", "source", "src") else "({0}) == 1".format(a.expr))
            if isinstance(a, histbook.groupbin):
                e = a.origin + a.binwidth
            else:
                e = rng.choice(list(a.edges)) if isinstance(a, histbook.split) else a.low + rng.randint(0, a.numbins) * a.binwidth
            return h.select("({0}) {1} {2!r}".format(a.expr, rng.choice(["<", ">="] if a.closedlow else ["<=", ">"]), e))
    except (TypeError, ValueError, IndexError):
        return None     # not possible for this axis; nothing may have changed either way
    raise AssertionError(how)

def bookderive(b, op, w, ctx):
    how = op["how"]
    rng = random.Random(op["c"])
    if how in ("copy", "copyonfill", "cleared"):
        d = w.add(sut(how, getattr(b, how)))
        if how == "cleared":
            require(all(w.hists[id(h)][1] is None for p, h in w.inside(d)), "derived-content", "cleared() has content")
        else:
            samestate(w, d, b)
        require(not set(id(h) for p, h in w.inside(d)) & set(id(h) for p, h in w.inside(b)), "derived-same", how + " of a book holds the same histograms")
    elif how == "+":
        pool = [r[0] for r in w.books.values() if mergeable(w, b, r[0])]
        if op["c"] % 4 and len(pool) > 1:
            pool = [x for x in pool if x is not b]
        y = pool[op["b"] % len(pool)]
        w.picks.append(y)
        if isinstance(b, histbook.SystematicsBook):
            return None
        d = w.add(sut("+", lambda: b + y))
        require(not set(id(h) for p, h in w.inside(d)) & set(id(h) for p, h in w.inside(b) + w.inside(y)), "derived-same", "sum of books holds the same histograms")
        one, two = dict(w.inside(b)), dict(w.inside(y))
        for p, h in w.inside(d):
            obs.same("derived-content", w.hists[id(h)][1], obs.addcontent(w.hists[id(one[p])][1] if p in one else None, w.hists[id(two[p])][1] if p in two else None), "book + at " + p)
        require(set(p for p, h in w.inside(d)) == set(one) | set(two), "derived", "sum of books lacks histograms")
    elif how == "*":
        d = w.add(sut("*", lambda: b * op["by"]))
        one = dict(w.inside(b))
        require([p for p, h in w.inside(d)] == list(one), "derived", "product lacks histograms")
        for p, h in w.inside(d):
            obs.same("derived-content", w.hists[id(h)][1], obs.mulcontent(w.hists[id(one[p])][1], op["by"]), "book * at " + p)
    elif how in ("pickle", "deepcopy", "json"):
        f = {"pickle": lambda: pickle.loads(pickle.dumps(b, rng.choice([0, 2, -1]))), "deepcopy": lambda: copy.deepcopy(b), "json": lambda: histbook.book.GenericBook.fromjson(b.tojson())}[how]
        d = w.add(sut(how, f))
        samestate(w, d, b)
    elif how == "view":
        if not isinstance(b, histbook.book.ViewableBook):
            return None
        paths = [p for p, h in w.inside(b)]
        if not paths:
            return None
        d = w.add(sut("view", b.view, "*" if rng.random() < 0.5 else rng.choice(paths)))
    elif how == "samples":
        items = collections.OrderedDict((n, x) for n, x in w.books[id(b)][3] if not obs.isbook(x))
        if not items:
            return None
        d = w.add(sut("SamplesBook", histbook.SamplesBook, ["data", "mc"], items))
        for s in ("data", "mc"):
            for n, x in items.items():
                samestate(w, d[s + "/" + n], x)
    elif how == "group":
        pool = [r[0] for r in w.books.values() if mergeable(w, b, r[0])]
        if op["c"] % 4 and len(pool) > 1:
            pool = [x for x in pool if x is not b]
        y = pool[op["b"] % len(pool)]
        w.picks.append(y)
        try:
            d = type(b).group(by="src", one=b, two=y)
        except (TypeError, ValueError):
            return "bookgroup-rejected"
        w.add(d)
        one, two = dict(w.inside(b)), dict(w.inside(y))
        for p, h in w.inside(d):
            want = {}
            for n, part in (("one", one), ("two", two)):
                if p in part and w.hists[id(part[p])][1] is not None:
                    want[obs.key(n)] = w.hists[id(part[p])][1]
            obs.same("derived-content", w.hists[id(h)][1], want or None, "book group at " + p)
    return "bookderive-" + how

def spoil(j):
    """A caller does what it likes with the JSON it was given."""
    if isinstance(j, dict):
        for k in list(j):
            if k == "attachment":
                j[k]["spoiled"] = 1
            elif k == "defs":
                j[k]["spoiled"] = "x"
            else:
                spoil(j[k])
        j["spoiled"] = 1
    elif isinstance(j, list):
        for x in j:
            spoil(x)
        j.append(99)

def read(op, w):
    how = op["how"]
    h = w.hist(op["a"])
    b = w.book(op["b"])
    if how == "table":
        t = sut("table", h.table)
    elif how == "table2":
        profs = [a for a in h.axis if isinstance(a, histbook.profile)]
        t = sut("table", h.table, *profs, effcount=True, recarray=False, columns=True)
        def scribble(t):
            if isinstance(t, dict):
                for x in t.values():
                    scribble(x)
                t.clear()
            else:
                t[...] = 7
        scribble(t[0])
    elif how == "fraction":
        cuts = [a for a in h.axis if isinstance(a, histbook.cut)]
        if not cuts or len(set(a.expr for a in cuts)) != len(cuts):
            return None
        sut("fraction", h.fraction, *cuts)
    elif how == "tojson":
        spoil(sut("tojson", h.tojson))
        if b is not None:
            spoil(sut("tojson", b.tojson))
    elif how == "str":
        str(h), repr(h)
        if b is not None:
            str(b), repr(b)
    elif how == "eq":
        g = w.hist(op["b"])
        sut("==", lambda: (h == g, h != g, g == h))
        if b is not None:
            c = w.book(op["c"])
            sut("==", lambda: (b == c, b != c))
    elif how == "fields":
        h.fields
        if isinstance(b, histbook.Book):
            b.fields
    elif how == "groupkeys":
        for a in h.axis:
            if isinstance(a, (histbook.groupby, histbook.groupbin)):
                k = sut("groupkeys", h.groupkeys, a)
                k.clear()
    elif how == "getitem":
        h[()]
    elif how == "axis":
        [repr(a) for a in h.axis]
        [a.tojson() for a in h.axis]
        [a.copy() for a in h.axis]
    elif how == "compatible":
        h.compatible(w.hist(op["b"]))
    elif how == "items":
        if b is None:
            return None
        b.items(recursive=True), b.keys(), b.values(), len(b), b["*"], "p" in b, list(b)
    elif how == "plot":
        c = [a for a in h.axis if isinstance(a, (histbook.bin, histbook.intbin, histbook.split))]
        if len(h.axis) != 1 or not c:
            return None
        try:
            h.step(c[0]).vegalite()
        except Exception:
            return None
    return "read-" + how

def fail(op, w, ctx):
    """Operations that raise: nothing may change."""
    how = op["how"]
    x = w.book(op["a"], histbook.Book) if op["book"] else w.hist(op["a"])
    if x is None:
        x = w.hist(op["a"])
    cols = data(op["rows"])
    try:
        if how in ("missing", "length", "source", "column", "bomb"):
            fs = list(x.fields)
            if not fs:
                return None
            f = fs[op["b"] % len(fs)]
            if how == "missing":
                del cols[f]
                x.fill(cols)
            elif how == "length":
                if len(fs) < 2:
                    return None
                cols[f] = cols[f][:-1]
                x.fill(cols)
            elif how == "source":
                x.fill(faulty.Source(cols, op["nth"] % len(fs), op["exc"]))
            elif how == "column":
                cols[f] = faulty.Column(cols[f], op["exc"])
                x.fill(cols)
            else:
                cols[f] = numpy.array([faulty.Bomb() for r in op["rows"]], dtype=object)
                try:
                    x.cleared().fill(cols)
                except Exception:
                    x.fill(cols)
                else:
                    return None     # nothing had to be computed with these values
        elif how in ("iadd", "add", "togroup", "group"):
            h = w.hist(op["a"])
            pool = [r[0] for r in w.hists.values() if list(r[0].axis) != list(h.axis)]
            if not pool:
                return None
            g = pool[op["b"] % len(pool)]
            if how == "iadd":
                h += g
            elif how == "add":
                h + g
            elif how == "group":
                histbook.Hist.group(by="src", one=h, two=g)
            else:
                if list(g.axis) == list(h.axis)[1:]:
                    return None
                h.togroup(zz=g)
        elif how == "imul":
            x *= "no number"
        elif how == "select":
            w.hist(op["a"]).select("nothing < 12345")
        elif how == "project":
            w.hist(op["a"]).project("nothing")
        elif how == "rebin":
            w.hist(op["a"]).rebin("nothing", [1, 2])
        elif how == "detach":
            x.detach("nothing")
        elif how == "bookset":
            b = w.book(op["a"])
            if b is None:
                return None
            r = w.books[id(b)]
            hs = [n for n, y in r[3] if not obs.isbook(y)]
            if op["b"] % 2 and hs:
                b[hs[0] + "/deeper/name"] = w.hist(0)
            else:
                b["bad"] = 3
        elif how == "bookdel":
            b = w.book(op["a"])
            if b is None:
                return None
            del b[["nothing", "p/nothing", "sub/nothing/x"][op["b"] % 3]]
        elif how == "bookiadd":
            b = w.book(op["a"])
            if b is None:
                return None
            b += w.hist(0)
    except Violation:
        raise
    except (Exception, KeyboardInterrupt, SystemExit):
        ctx.fault("failed " + how)
        w.verify("after failed " + how)
        return "failed-" + how
    raise Violation("not-raised", "{0} with bad input did not raise".format(how))

def shrink(plan):
    from sim.shrink import ops_and_rows, patched
    for p in ops_and_rows(plan):
        if p["ops"] and p["ops"][0]["op"] == "new":
            yield p
    for i, sp in enumerate(plan["specs"]):
        for t in gen.smaller_trees({"spec": sp}):
            yield patched(plan, specs=plan["specs"][:i] + [t["spec"]] + plan["specs"][i + 1:])
        if sp.get("attachment"):
            yield patched(plan, specs=plan["specs"][:i] + [dict(sp, attachment=None)] + plan["specs"][i + 1:])
