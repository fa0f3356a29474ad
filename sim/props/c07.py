"""C07: results do not depend on the order in which hash-based collections iterate, nor on the order of the columns."""
from sim import order       # first: histbook is imported behind the seam

import collections
import json
import pickle
import random

from sim import build, gen, obs
from sim.core import sut, Violation, require

import numpy
import histbook
import histbook.book

ID = "C07"
RUNS = {"quick": 2400, "thorough": 60000}
LEVEL = "exploration"
RULE = "one run = one random program (histograms and books with many shared subexpressions, fills, merges, grouping, selections, saving) executed under several simulated hash orders and column orders on data whose sums and products round; everything observable must be bit-identical; non-trivial if the orders of more than 3 iterations really differed; distinct by program and orders"
COMPONENTS = {"real": ["expression parsing and planning, fill, books, serialisation"], "simulated": ["iteration order of every set the library makes, values of hash and id, order of supplied columns"], "stub": []}
ASSUMPTIONS = ["dict preserves insertion order, as the language guarantees since Python 3.7"]

# expressions whose value depends, in the last bit, on the order of evaluation
MANY = [("x*y*z*w", "xyzw"), ("x*y*z", "xyz"), ("x*y", "xy"), ("x + y + z + w", "xyzw"), ("x + y + z", "xyz"), ("x + y", "xy"), ("x - y - z + w", "xyzw"), ("x*y*x*z*y", "xyz"), ("x*x*y*y*z", "xyz"), ("x*y/z/w", "xyzw"), ("(x + y)*(z + w)*q", "xyzwq"), ("(x + y + z)*(x*y)", "xyz"), ("sqrt(x*x + y*y + z*z)", "xyz"), ("x**3*y**2", "xy"), ("max(x*y, z*w)", "xyzw"), ("where(b, x*y*z, x + y + z)", "bxyz"), ("where(x > y, x*y, x*z)", "xyz"), ("hypot(x*y, z*w)", "xyzw"), ("sin(x*y) + cos(z*w) + x", "xyzw"), ("x*y + z*w + q*x", "xyzwq"), ("x*0.1*y*3*z", "xyz"), ("x + 0.1 + y + 0.2 + z", "xyz"), ("(x*y + z)*(x*y - z)", "xyz"), ("arctan2(x*y, z)*w*q", "xyzwq"), ("x*y*n*k", "xynk"), ("x + y*n + z*k", "xynzk"), ("q*(x + y)/(z*w)", "qxyzw"), ("x*w*q/7", "xwq"), ("2*x + 3*y + 5*z", "xyz"), ("log(x*y)*z", "xyz")]
TESTS = [("b", "b"), ("not b", "b"), ("x*y > z", "xyz"), ("x + y > z and b", "xyzb"), ("b or x*y*z < 1", "bxyz"), ("k in {1, 2, 3}", "k"), ("x > 1 and y > 1 and z > 1", "xyz"), ("x > 1 or y > 1 or z > 1", "xyz"), ("g in {'aa', 'c', 'dd'}", "g"), ("not (x > y and b)", "xyb"), ("x < y and y < z or b", "xyzb"), ("k not in {0, 3}", "k")]

# the same condition written in another order
COMMUTED = {"b or x*y*z < 1": "x*y*z < 1 or b", "x > 1 and y > 1 and z > 1": "z > 1 and x > 1 and y > 1", "x > 1 or y > 1 or z > 1": "y > 1 or z > 1 or x > 1", "x + y > z and b": "b and x + y > z", "k in {1, 2, 3}": "k in {3, 1, 2}", "x < y and y < z or b": "b or y < z and x < y", "g in {'aa', 'c', 'dd'}": "g in {'dd', 'aa', 'c'}", "k not in {0, 3}": "k not in {3, 0}"}

def commuted(sp):
    return dict(sp, filter=COMMUTED.get(sp["filter"], sp["filter"]))

def spec(rng):
    sp = gen.spec(rng, maxsize=60, ngroup=[0, 0, 0, 1], nfixed=[0, 1, 1, 2], nprofile=[0, 1, 2], defs=0, filter=0, weight=0.3)
    for a in sp["axes"]:
        if a["kind"] in ("bin", "split", "profile", "groupbin") and rng.random() < 0.8:
            a["expr"], a["fields"] = gen._pick(rng, MANY)
        elif a["kind"] == "cut":
            a["expr"], a["fields"] = gen._pick(rng, TESTS)
    if rng.random() < 0.5:
        sp["weight"], sp["wfields"] = gen._pick(rng, MANY)
    if rng.random() < 0.4:
        t = [t for t in TESTS if t[0] != "b"]
        sp["filter"], sp["ffields"] = gen._pick(rng, t)
    if rng.random() < 0.25:
        d, df = gen._pick(rng, MANY)
        sp["defs"] = {"d": d}
        for a in sp["axes"]:
            if a["kind"] in ("bin", "split", "profile") and rng.random() < 0.6:
                a["expr"], a["fields"] = rng.choice([("d", df), ("d*x*y", df + ["x", "y"]), ("d + x + z", df + ["x", "z"]), ("d*d*z", df + ["z"])])
    return sp

def rows(rng, n):
    out = []
    for i in range(n):
        r = gen.row(rng, {"finite": True})
        for c in "xyzw":
            r[c] = rng.uniform(0.01, 3)
        r["q"] = rng.choice([0.3, 0.7, 1.1, 3.0])
        if rng.random() < 0.03:
            r["x"] = rng.choice(["nan", "inf", 1e300])
        out.append(r)
    return out

def generate(rng, tier):
    specs = [spec(rng) for i in range(rng.choice([1, 2, 3, 4]))]
    if rng.random() < 0.5:
        specs.append(commuted(specs[0]))
    ops = []
    for i in range(rng.choice([2, 3, 4, 5])):
        r = rng.random()
        if r < 0.6:
            op = {"op": "fill", "rows": rows(rng, rng.choice([0, 1, 3, 8, 20])), "which": rng.randint(-2, 5), "lists": rng.random() < 0.2, "kw": rng.random() < 0.3}
        elif r < 0.7:
            op = {"op": "edit", "which": rng.randint(0, 5), "name": rng.choice(["n1", "h0", "sub/n2"])}
        elif r < 0.8:
            op = {"op": "missing", "which": rng.randint(0, 9), "rows": rows(rng, 3)}
        elif r < 0.9:
            op = {"op": "scale", "by": rng.choice([0.1, 1.7])}
        else:
            op = {"op": "save"}
        ops.append(op)
    return {"specs": specs, "ops": ops, "orders": [2 * rng.randint(1, 10**6) + i for i in range(2)], "nested": rng.random() < 0.4}

# ---------------------------------------------------------------- the program

def canon(x):
    """An observation in which floats differ if any bit differs, and dicts do not depend on order."""
    if isinstance(x, dict):
        return sorted([repr(k), canon(v)] for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [canon(y) for y in x]
    if isinstance(x, numpy.ndarray):
        return canon(x.tolist())
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, (set, frozenset)):
        return sorted(repr(y) for y in x)
    return x

def program(plan, seed):
    rng = random.Random(seed)
    out = []
    specs = plan["specs"]
    hists = [build.hist(sp) for sp in specs]
    lone = [build.hist(sp) for sp in specs]
    book = histbook.Book()
    for i, h in enumerate(hists):
        book["sub/h%d" % i if plan["nested"] and i % 2 else "h%d" % i] = h
    fields = sorted(set(f for sp in specs for f in gen.fields(sp)))
    out.append(["fields", list(book.fields), [list(h.fields) for h in lone]])
    for op in plan["ops"]:
        kind = op["op"]
        if kind == "fill":
            names = list(fields)
            if seed:
                rng.shuffle(names)
            cols = collections.OrderedDict((n, build.array(n, [r[n] for r in op["rows"]], "f8")) for n in names)
            if op["lists"]:
                cols = collections.OrderedDict((n, c.tolist()) for n, c in cols.items())
            x = book if op["which"] < 0 else lone[op["which"] % len(lone)]
            if op["kw"]:
                x.fill(**cols)
            else:
                x.fill(cols)
        elif kind == "edit":
            h = lone[op["which"] % len(lone)].copy()
            try:
                book[op["name"]] = h
            except KeyError as err:
                out.append(["edit", "KeyError"])
            out.append(["fields", list(book.fields)])
        elif kind == "missing":
            need = list(book.fields)
            if need:
                f = need[op["which"] % len(need)]
                cols = build.columns(op["rows"], [n for n in fields if n != f])
                try:
                    book.fill(cols)
                    out.append(["missing", "no error"])
                except Exception as err:
                    out.append(["missing", type(err).__name__])
        elif kind == "scale":
            book *= op["by"]
        elif kind == "save":
            book = pickle.loads(pickle.dumps(book))
            lone = [histbook.Hist.fromjson(h.tojson()) for h in lone]
        out.append([kind, [canon(h.tojson()) for h in lone], canon(book.tojson())])
    # reading, comparing, deriving
    every = lone + book.values(recursive=True, onlyhist=True)
    out.append(["eq", [[a == b for b in every] for a in every], book == book.copy()])
    out.append(["str", [repr(h) for h in every], str(book), book.keys(recursive=True)])
    for h in every:
        profs = [a for a in h.axis if isinstance(a, histbook.profile)]
        groups = [a for a in h.axis if isinstance(a, (histbook.groupby, histbook.groupbin))]
        out.append(["table", canon(h.table(*profs, recarray=False)), [canon(h.groupkeys(a)) for a in groups]])
    out.append(["sum", canon((book + book.copy()).tojson()), canon((every[0] + every[0]).tojson())])
    g = histbook.Hist.group(by="src", one=every[0], two=every[0].copy())
    out.append(["group", canon(g.tojson()), repr(g)])
    other = histbook.Book(collections.OrderedDict((n, x.copy()) for n, x in reversed(book.items())))
    gb = histbook.Book.group(by="src", one=book, two=other)
    out.append(["bookgroup", gb.keys(), canon(gb.tojson()), list(gb.fields)])
    out.append(["compatible", [[a.compatible(b) for b in every] for a in every]])
    return out

def execute(plan, ctx):
    order.SEED[0] = 0
    for k in order.COUNT:
        order.COUNT[k] = 0
    def run(seed):
        order.SEED[0] = seed
        try:
            return program(plan, seed)
        finally:
            order.SEED[0] = 0
    base = sut("program", run, 0)
    for seed in plan["orders"]:
        ctx.step()
        got = sut("program", run, seed)
        ctx.fault("hash order")
        require(len(got) == len(base), "different", "another number of results")
        for a, b in zip(got, base):
            if a != b:
                raise Violation("different", "order {0}: {1}: {2}".format(seed, b[0], obs.diff(a, b)))
            ctx.checked()
    ctx.probe("iterations of sets", order.COUNT["iterations"])
    ctx.probe("reordered iterations", order.COUNT["reordered"])
    ctx.nontrivial = order.COUNT["reordered"] > 3
    ctx.sigs.append([[[a["kind"], a["expr"]] for sp in plan["specs"] for a in sp["axes"]], [op["op"] for op in plan["ops"]], plan["orders"]])

def shrink(plan):
    from sim.shrink import ops_and_rows, patched
    for i in range(len(plan["orders"])):
        if len(plan["orders"]) > 1:
            yield patched(plan, orders=plan["orders"][:i] + plan["orders"][i + 1:])
    for p in ops_and_rows(plan):
        yield p
    if len(plan["specs"]) > 1:
        for i in range(len(plan["specs"])):
            yield patched(plan, specs=plan["specs"][:i] + plan["specs"][i + 1:])
    for i, sp in enumerate(plan["specs"]):
        for t in gen.smaller_trees({"spec": sp}):
            yield patched(plan, specs=plan["specs"][:i] + [t["spec"]] + plan["specs"][i + 1:])
