"""C06: filling a book is filling each of its histograms alone, whatever was edited before."""
import collections
import copy
import fnmatch
import pickle
import random

from sim import build, gen, obs, faulty
from sim.core import sut, Violation, require

import histbook
import histbook.book

ID = "C06"
RUNS = {"quick": 10000, "thorough": 300000}
LEVEL = "exploration"
RULE = "one run = a random nested book under a random history of edits (through the book, a path or a nested book's own handle; shared histograms and shared nested books; rejected edits), fills of the book, of nested books, of views and of single histograms, and fills that fail; every histogram has a twin that is filled alone; contents and required fields are compared at random moments and at the end; non-trivial if a book was filled after an edit that followed an earlier fill or look at its fields; distinct by the sequence of operations and structure"
COMPONENTS = {"real": ["Book, nested books, views, SystematicsBook, SamplesBook, ChannelsBook, fill planning and calculation"], "simulated": ["edit and fill scheduler, data source and its faults"], "stub": []}
ASSUMPTIONS = ["filling one histogram alone is right (C01)", "columns given as a single number are left out (their meaning depends on the other columns)"]

PATHS = ["h", "one", "two", "a", "sub/x", "sub/y", "sub/deep/x", "c", "m0", "new", "new/h"]

def form(rng, specs):
    f = gen.form(rng, *specs)
    if f["form"] == "scalars":
        f["form"] = "dict"
    return f

def generate(rng, tier):
    opts = {"maxsize": 60, "nfixed": [0, 1, 1, 1, 2], "defs": 0.3, "rexpr": 0.3 if rng.random() < 0.3 else 0}
    pool = [gen.spec(rng, **opts) for i in range(rng.randint(1, 3))]
    # variations on one specification share most of their expressions
    if rng.random() < 0.6:
        sp = dict(pool[0])
        if rng.random() < 0.5:
            sp["weight"], sp["wfields"] = gen._pick(rng, gen.WEIGHT)
        else:
            sp["filter"], sp["ffields"] = gen._pick(rng, gen.FILTER)
        pool.append(sp)
    cls = rng.choice(["Book", "Book", "Book", "Book", "ChannelsBook", "SamplesBook", "SystematicsBook"])
    big = rng.random() < 0.04
    if big:
        opts = dict(opts, depth=rng.choice([2, 4, 5]), maxitems=rng.choice([5, 9]))
        opts["maxitems"] = 5 if opts["depth"] > 2 else opts["maxitems"]
    root = gen.tree(rng, classes=["Book", "Book", "Book", "ChannelsBook"], systematics=0.2, **dict({"depth": rng.choice([1, 2, 3])}, **dict(opts, cls=cls)))
    specs = pool + [sp for p, sp in gen.leaves(root)]
    ops = []
    for i in range(24 if rng.random() < 0.02 else rng.choice([3, 5, 7, 9] if tier == "quick" else [5, 9, 14, 20])):
        r = rng.random()
        if r < 0.36:
            op = {"op": "fill", "rows": gen.rows(rng, rng.choice([0, 1, 2, 4, 8])), "form": form(rng, specs)}
        elif r < 0.42:
            op = {"op": "view", "rows": gen.rows(rng, rng.choice([1, 3])), "form": form(rng, specs)}
        elif r < 0.50:
            op = {"op": "failfill", "how": rng.choice(["source", "missing", "length", "column", "bomb"]), "rows": gen.rows(rng, 3), "nth": rng.randint(0, 6), "exc": rng.choice(["error", "ioerror", "memory", "interrupt"])}
        elif r < 0.73:
            op = {"op": "set", "path": rng.choice(PATHS), "value": rng.choice(["new", "new", "new", "old", "book", "oldbook", "bad"])}
        elif r < 0.81:
            op = {"op": "del", "wild": rng.random() < 0.25}
        elif r < 0.86:
            op = {"op": "hist", "how": rng.choice(["fill", "clear", "imul"]), "rows": gen.rows(rng, 2)}
        elif r < 0.93:
            op = {"op": "fields"}
        else:
            op = {"op": "derive", "how": rng.choice(["copy", "copyonfill", "pickle", "json", "cleared", "+", "deepcopy"])}
        op.update({"a": rng.randint(0, 999), "b": rng.randint(0, 999), "look": rng.random() < 0.3})
        ops.append(op)
    return {"pool": pool, "root": root, "ops": ops, "last": {"rows": gen.rows(rng, 4), "form": form(rng, specs)}}

# ---------------------------------------------------------------- the expected structure

class Node(object):
    def __init__(self, book):
        self.book = book
        self.items = collections.OrderedDict()

class World(object):
    def __init__(self):
        self.twins = collections.OrderedDict()      # id of histogram -> (histogram, twin)
        self.nodes = []
        self.roots = []

    def hist(self, h, twin):
        self.twins[id(h)] = (h, twin)
        return h

    def node(self, book):
        n = Node(book)
        self.nodes.append(n)
        return n

    def inside(self, node, path=""):
        out = []
        for n, x in node.items.items():
            p = path + "/" + n if path else n
            if isinstance(x, Node):
                out += self.inside(x, p)
            else:
                out.append((p, x))
        return out

    def everything(self, node, path=""):
        out = []
        for n, x in node.items.items():
            p = path + "/" + n if path else n
            out.append((p, x))
            if isinstance(x, Node):
                out += self.everything(x, p)
        return out

    def reaches(self, node, other):
        return node is other or any(isinstance(x, Node) and self.reaches(x, other) for x in node.items.values())

    def live(self):
        """Nodes that can be reached from a root, each once."""
        out = collections.OrderedDict()
        def walk(n):
            out[id(n)] = n
            for x in n.items.values():
                if isinstance(x, Node):
                    walk(x)
        for r in self.roots:
            walk(r)
        return list(out.values())

def unique(pairs):
    return list(collections.OrderedDict((id(h), h) for p, h in pairs).values())

def adopt(w, book, tree, path=""):
    """The node of a freshly built book; twins from the specifications."""
    node = w.node(book)
    specs = dict(gen.leaves(tree))
    def walk(node, book, path):
        for n, x in book.items():
            p = path + "/" + n if path else n
            if obs.isbook(x):
                sub = w.node(x)
                walk(sub, x, p)
                node.items[n] = sub
            else:
                node.items[n] = w.hist(x, build.hist(specs[p]))
    walk(node, book, "")
    return node

def derived(w, book, node):
    out = w.node(book)
    got = book.items()
    require([n for n, x in got] == list(node.items), "derived", "names of a derived book differ")
    for (n, x), y in zip(got, node.items.values()):
        out.items[n] = derived(w, x, y) if isinstance(y, Node) else w.hist(x, w.twins[id(y)][1].copy())
    return out

# ---------------------------------------------------------------- the run

def execute(plan, ctx):
    w = World()
    specs = plan["pool"] + [sp for p, sp in gen.leaves(plan["root"])]
    fields = sorted(set(f for sp in specs for f in gen.fields(sp)))
    book = sut("construct", build.tree, plan["root"])
    w.roots.append(adopt(w, book, plan["root"]))
    names = []
    planned = edited = False
    for op in plan["ops"]:
        ctx.step()
        what = step(plan, op, w, fields, ctx)
        names.append(what)
        ctx.log(what, op.get("path", ""), op["a"], op["b"], "->", [p for p, h in w.inside(w.roots[0])])
        if what in ("fill", "fields", "failfill", "view"):
            if edited:
                ctx.nontrivial = True
            planned = True
        elif what in ("set", "del", "delwild") and planned:
            edited = True
        if op["look"]:
            compare(w, "after " + str(what), ctx)
    # whatever happened, the next fill of everything is right
    for r in w.roots:
        target = r if isinstance(r.book, histbook.Book) else None
        if target is None:
            for n, x in r.items.items():
                if isinstance(x, Node) and isinstance(x.book, histbook.Book):
                    target = x
        if target is not None:
            fill(w, target.book, w.inside(target), plan["last"], fields, "last")
    compare(w, "at the end", ctx)
    for n in w.live():
        checkfields(w, n)
    ctx.sigs.append([names, plan["root"].get("type"), [[a["kind"] for a in sp["axes"]] for sp in specs]])

def compare(w, where, ctx):
    for h, twin in w.twins.values():
        got, want = obs.content(h), obs.content(twin)
        if not obs.eq(got, want):
            raise Violation("content", "{0}: {1} differs from the same histogram filled alone at {2}".format(where, repr(h), obs.diff(got, want)))
        ctx.checked()

def checkfields(w, node):
    if isinstance(node.book, histbook.Book):
        want = sorted(set(f for p, h in w.inside(node) for f in w.twins[id(h)][1].fields))
        got = sut("fields", lambda: list(node.book.fields))
        require(got == want, "fields", "book reports {0}, its histograms need {1}".format(got, want))

def fill(w, book, pairs, op, fields, what):
    hs = unique(pairs)
    args, kwargs, cols = build.deliver(op["rows"], fields, op["form"])
    sut(what, book.fill, *args, **kwargs)
    for h in hs:
        build.fill(w.twins[id(h)][1], op["rows"], fields, dict(gen.PLAIN_FORM, dtype=op["form"]["dtype"]))

def pick(seq, n):
    return seq[n % len(seq)] if seq else None

def step(plan, op, w, fields, ctx):
    kind = op["op"]
    nodes = w.live()
    books = [n for n in nodes if isinstance(n.book, histbook.Book)]
    rng = random.Random(op["b"])

    if kind == "fill":
        n = pick(books, op["a"]) if op["b"] % 3 else (w.roots[0] if w.roots[0] in books else pick(books, op["a"]))
        if n is None:
            return None
        fill(w, n.book, w.inside(n), op, fields, "fill")
        return "fill"

    if kind == "view":
        views = [n for n in nodes if isinstance(n.book, histbook.book.ViewableBook)]
        n = pick(views, op["a"])
        if n is None:
            return None
        inside = w.inside(n)
        paths = [p for p, h in inside]
        if not paths:
            return None
        p = rng.choice(paths)
        pattern = rng.choice(["*", p, "*" + p[-1], p[:1] + "*", "?" + p[1:], "nothing"])
        match = [(q, h) for q, h in inside if fnmatch.fnmatchcase(q, pattern)]
        if not match:
            try:
                n.book.view(pattern)
            except ValueError:
                return "view-nothing"
            raise Violation("view", "a view of nothing was made for " + pattern)
        view = sut("view", n.book.view, pattern)
        fill(w, view, match, op, fields, "view.fill")
        ctx.probe("filled a view")
        return "view"

    if kind == "failfill":
        n = pick(books, op["a"])
        if n is None:
            return None
        need = sorted(set(f for p, h in w.inside(n) for f in w.twins[id(h)][1].fields))
        if not need:
            return None
        cols = build.columns(op["rows"], fields)
        f = pick(need, op["b"])
        try:
            if op["how"] == "source":
                n.book.fill(faulty.Source(cols, op["nth"] % len(need), op["exc"]))
            elif op["how"] == "missing":
                del cols[f]
                n.book.fill(cols)
            elif op["how"] == "column":
                cols[f] = faulty.Column(cols[f], op["exc"])
                n.book.fill(cols)
            elif op["how"] == "length":
                if len(need) < 2:
                    return None
                cols[f] = cols[f][:-1]
                n.book.fill(cols)
            else:
                import numpy
                cols[f] = numpy.array([faulty.Bomb() for r in op["rows"]], dtype=object)
                twins = [w.twins[id(h)][1].cleared() for h in unique(w.inside(n))]
                bad = False
                for t in twins:
                    try:
                        t.fill(cols)
                    except Exception:
                        bad = True
                if not bad:
                    return None
                n.book.fill(cols)
        except (Exception, KeyboardInterrupt):
            ctx.fault("failed fill: " + op["how"])
            return "failfill"
        raise Violation("not-raised", "filling with bad input ({0}) did not raise".format(op["how"]))

    if kind == "set":
        n = pick(nodes, op["a"])
        if isinstance(n.book, histbook.SamplesBook) and "/" not in op["path"]:
            return None
        path = op["path"].split("/")
        # where does the path lead
        node, through, blocked = n, [n], False
        for name in path[:-1]:
            x = node.items.get(name) if node is not None else None
            if x is None:
                node = None
            elif isinstance(x, Node):
                node = x
                through.append(x)
            else:
                blocked = True
                break
        value = op["value"]
        if value == "bad":
            v = child = rng.choice([3, None, "text", [1]])
        elif value == "new":
            i = op["b"] % len(plan["pool"])
            v = child = build.hist(plan["pool"][i])
            twin = build.hist(plan["pool"][i])
        elif value == "old":
            hs = list(w.twins.values())
            v = child = hs[op["b"] % len(hs)][0]
            twin = None
        elif value == "book":
            v = histbook.Book()
            child = Node(v)
            fresh = []
            for j in range(rng.randint(0, 2)):
                i = rng.randint(0, len(plan["pool"]) - 1)
                h = build.hist(plan["pool"][i])
                v["h%d" % j] = h
                child.items["h%d" % j] = h
                fresh.append((h, build.hist(plan["pool"][i])))
        else:
            others = [m for m in nodes if not any(w.reaches(m, t) for t in through)]
            child = pick(others, op["b"])
            if child is None:
                return None
            v = child.book
        rules = any(isinstance(t.book, histbook.SystematicsBook) for t in through)
        def put():
            if op["b"] % 2 and len(path) > 1 and node is not None and not blocked:
                node.book[path[-1]] = v         # through the nested book's own handle
            else:
                n.book["/".join(path)] = v
        if value == "bad" or blocked:
            try:
                put()
            except (TypeError, KeyError):
                ctx.fault("rejected edit")
                return "rejected"
            raise Violation("not-rejected", "setting {0} at {1} was accepted".format(type(v).__name__, op["path"]))
        if rules:
            try:
                put()
            except ValueError:
                ctx.fault("rejected edit")
                return "rejected"
        else:
            sut("set", put)
        # the expected structure
        cur = n
        for name in path[:-1]:
            x = cur.items.get(name)
            if x is None:
                x = cur.items[name] = w.node(cur.book[name])
            cur = x
        cur.items[path[-1]] = child
        if value == "new":
            w.hist(v, twin)
        elif value == "book":
            w.nodes.append(child)
            for h, twin in fresh:
                w.hist(h, twin)
        if value == "oldbook":
            ctx.probe("nested book shared or moved")
        return "set"

    if kind == "del":
        n = pick(nodes, op["a"])
        every = w.everything(n)
        if not every:
            return None
        p, x = pick(every, op["b"])
        if op["wild"]:
            pattern = rng.choice(["*" + p[-1], p[:1] + "*", p[:-1] + "?"])
            match = [q for q, y in every if fnmatch.fnmatchcase(q, pattern)]
        else:
            pattern, match = p, [p]
        through = [y for q, y in every if isinstance(y, Node)] + [n]
        def remove():
            del n.book[pattern]
        if any(isinstance(t.book, histbook.SystematicsBook) for t in through):
            try:
                remove()
            except ValueError:
                ctx.fault("rejected edit")
                return "rejected"
        else:
            sut("del", remove)
        for q in match:
            cur = n
            names = q.split("/")
            for name in names[:-1]:
                cur = cur.items.get(name) if cur is not None else None
            if isinstance(cur, Node):
                cur.items.pop(names[-1], None)
        return "delwild" if op["wild"] else "del"

    if kind == "hist":
        hs = list(w.twins.values())
        h, twin = hs[op["a"] % len(hs)]
        for x in (h, twin):
            if op["how"] == "fill":
                sut("fill", build.fill, x, op["rows"], fields, gen.PLAIN_FORM)
            elif op["how"] == "clear":
                x.clear()
            else:
                x *= 2
        return "hist-" + op["how"]

    if kind == "fields":
        n = pick(books, op["a"])
        if n is None:
            return None
        checkfields(w, n)
        ctx.checked()
        return "fields"

    if kind == "derive":
        n = pick(nodes, op["a"])
        if len(w.twins) > 25 or (op["how"] == "+" and any(isinstance(m.book, histbook.SystematicsBook) for m in nodes)):
            return None
        if any(isinstance(m.book, histbook.SystematicsBook) and any(isinstance(x, Node) for x in m.items.values()) for m in nodes):
            return None     # a nested book's own handle can break the rules of a systematics book unnoticed
        b = n.book
        f = {"copy": b.copy, "copyonfill": b.copyonfill, "cleared": b.cleared, "pickle": lambda: pickle.loads(pickle.dumps(b)), "deepcopy": lambda: copy.deepcopy(b), "json": lambda: histbook.book.GenericBook.fromjson(b.tojson()), "+": lambda: b + b}[op["how"]]
        paths = w.inside(n)
        allnodes = [id(x) for p, x in w.everything(n) if isinstance(x, Node)]
        if op["how"] in ("pickle", "deepcopy") and (len(unique(paths)) != len(paths) or len(set(allnodes)) != len(allnodes)):
            return None     # sharing is kept by these; not modelled
        d = sut(op["how"], f)
        node = derived(w, d, n)
        if op["how"] == "cleared":
            for p, h in w.inside(node):
                w.twins[id(h)][1].clear()
        elif op["how"] == "+":
            for p, h in w.inside(node):
                t = w.twins[id(h)][1]
                t *= 2
        w.roots.append(node)
        return "derive-" + op["how"]
    raise AssertionError(kind)

def shrink(plan):
    from sim.shrink import ops_and_rows, patched
    for p in ops_and_rows(plan):
        yield p
    for t in gen.smaller_trees(plan["root"]):
        yield patched(plan, root=t)
    if len(plan["pool"]) > 1:
        for i in range(len(plan["pool"])):
            yield patched(plan, pool=plan["pool"][:i] + plan["pool"][i + 1:])
    for i, sp in enumerate(plan["pool"]):
        for t in gen.smaller_trees({"spec": sp}):
            yield patched(plan, pool=plan["pool"][:i] + [t["spec"]] + plan["pool"][i + 1:])
    if plan["last"]["rows"]:
        yield patched(plan, last=dict(plan["last"], rows=plan["last"]["rows"][:1]))
