"""C03: a fill that fails changes nothing and can be retried."""
import copy
import pickle
import random

from sim import build, gen, obs, faulty
from sim.core import sut, Violation, require, InjectedFault

import numpy
import histbook
import histbook.book

ID = "C03"
RUNS = {"quick": 7000, "thorough": 90000}
LEVEL = "fault_enumeration"
RULE = "one run = one random histogram or nested book and a history of fills, of which some are made to fail at a seeded point (the nth column read, column conversion, the nth array calculation, missing or too short columns, unusable values); content before and after must be identical, then the fill is retried with good input; non-trivial if a fault fired inside a fill of an object that already had, or later got, content; distinct by (axes, fault kind and point, position in the history)"
COMPONENTS = {"real": ["histbook.Hist.fill, histbook.Book.fill and everything below"], "simulated": ["data source and arrays with injected failures"], "stub": ["pandas.DataFrame (columns, item access, .values)"]}
ASSUMPTIONS = ["failures are injected while columns are read or expressions are computed, as the property states; not inside the final accumulation (an interrupt there is out of the property's scope)"]

KINDS = ["read", "read", "read", "convert", "calc", "calc", "calc", "missing", "length", "bomb", "text", "label"]
EXCS = ["error", "ioerror", "keyerror", "memory", "interrupt", "value", "type"]

def generate(rng, tier):
    opts = {"maxsize": 150, "rexpr": 0.4 if rng.random() < 0.25 else 0}
    if rng.random() < 0.5:
        root = {"spec": gen.spec(rng, **opts)}
    else:
        root = gen.tree(rng, systematics=0.1, **opts)
    specs = [sp for p, sp in gen.leaves(root)]
    ops = []
    for i in range(rng.choice([1, 2, 3, 4, 5])):
        op = {"op": "fill", "rows": gen.rows(rng, max(1, gen.batchsize(rng))), "form": gen.form(rng, *specs), "faults": []}
        for j in range(rng.choice([0, 0, 1, 1, 2])):
            op["faults"].append({"kind": rng.choice(KINDS), "exc": rng.choice(EXCS), "nth": rng.choice([0, 0, 1, 1, 2, 3, 4, 6, 9]), "col": rng.randint(0, 20), "retry": rng.random() < 0.8})
        ops.append(op)
        if rng.random() < 0.2:
            ops.append({"op": rng.choice(["clear", "pickle", "copy", "copyonfill", "read"])})
    return {"root": root, "ops": ops, "twin": rng.random() < 0.3}

def raw(x):
    """Exact content with all categories; never filled is the same as nothing in it."""
    out = {}
    for p, h in build.hists(x):
        c = h.tojson().get("content")
        if isinstance(c, dict):
            c = dict((obs.key(k), v) for k, v in norm(c).items()) or None
        elif c is not None and obs._zero(c):
            c = None
        out[p] = c
    return out

def norm(c):
    return dict((k, norm(v) if isinstance(v, dict) else v) for k, v in c.items())

def bare(root):
    """Columns that some histogram accumulates without any calculation on them."""
    out = set()
    for p, sp in gen.leaves(root):
        for a in sp["axes"]:
            if a["kind"] == "profile":
                out.update(a["fields"])
        out.update(sp["wfields"])
    return out

def attempt(x, args, kwargs):
    try:
        x.fill(*args, **kwargs)
        return None
    except (Exception, KeyboardInterrupt, SystemExit) as err:
        return err

def inject(x, root, op, f, fields, ctx):
    """Try the fill with one fault. Returns (error or None, fired, must)"""
    rows = op["rows"]
    cols = build.columns(rows, fields, op["form"]["dtype"])
    col = fields[f["col"] % len(fields)]
    kind = f["kind"]
    need = list(x.fields)
    if kind == "read":
        src = faulty.Source(cols, f["nth"], f["exc"])
        err = attempt(x, (src,), {})
        return err, src.fired, False
    if kind == "convert":
        c = faulty.Column(cols[col], f["exc"])
        cols[col] = c
        err = attempt(x, (cols,), {})
        return err, c.fired, False
    if kind == "calc":
        no = bare(root)
        ok = [n for n in fields if n not in no]
        if not ok:
            return None, False, None
        col = ok[f["col"] % len(ok)]
        c = faulty.Tripwire.of(cols[col], f["nth"] % 4, f["exc"])
        cols[col] = c
        err = attempt(x, (cols,), {})
        return err, c.state["fired"], False
    if kind == "missing":
        if col not in need:
            return None, False, None
        del cols[col]
        err = attempt(x, (cols,) if f["nth"] % 2 else (), {} if f["nth"] % 2 else cols)
        return err, True, True
    if kind == "length":
        if col not in need or len(need) < 2:
            return None, False, None
        c = cols[col]
        cols[col] = c[:-1] if f["nth"] % 2 else numpy.concatenate([c, c[:1]])
        err = attempt(x, (cols,), {})
        return err, True, True
    if kind == "bomb":
        if col not in need:
            return None, False, None
        c = numpy.empty(len(rows), dtype=object)
        for i in range(len(rows)):
            c[i] = cols[col][i].item() if col != "g" else str(cols[col][i])
        c[f["nth"] % len(rows)] = faulty.Bomb()
        cols[col] = c
        err = attempt(x, (cols,), {})
        return err, True, None
    if kind == "text":
        if col not in need or col == "g":
            return None, False, None
        cols[col] = numpy.array(["oops"] * len(rows))
        err = attempt(x, (cols,), {})
        return err, True, None
    if kind == "label":
        if "g" not in need:
            return None, False, None
        c = numpy.empty(len(rows), dtype=object)
        bad = rows[f["nth"] % len(rows)]["g"]
        for i in range(len(rows)):
            c[i] = faulty.Label(rows[i]["g"], rows[i]["g"] == bad)
        cols["g"] = c
        err = attempt(x, (cols,), {})
        return err, True, None
    raise AssertionError(kind)

def execute(plan, ctx):
    root = plan["root"]
    fields = gen.treefields(root)
    x = sut("construct", build.tree, root)
    reference = sut("construct", build.tree, root)
    twin = None
    filled = 0
    injected = 0
    seq = []
    for op in plan["ops"]:
        ctx.step()
        if op["op"] == "fill":
            good = build.columns(op["rows"], fields, op["form"]["dtype"])
            if plan["twin"]:
                twin = x.copyonfill()
                twinraw = raw(twin)
            given = False
            for f in op["faults"]:
                before = raw(x)
                beforefields = list(x.fields)
                err, fired, must = inject(x, root, op, f, fields, ctx)
                if not fired:
                    if err is not None:
                        raise Violation("exception:fill:{0}".format(type(err).__name__), str(err))
                    if must is None:
                        continue
                ctx.log("faulty fill", f["kind"], f["exc"], f["nth"], "->", type(err).__name__ if err is not None else "no error")
                if err is None:
                    if fired and must is None:
                        return      # these values could be processed after all: not a failure
                    # nothing failed (or the read was retried): then it must be a complete fill
                    require(not must, "not-raised", "fill with a {0} column returned normally".format(f["kind"]))
                    sut("reference fill", reference.fill, good)
                    filled += 1
                    given = True
                    obs.same("complete", raw(x), raw(reference), "fill that did not raise")
                    break
                ctx.fault(f["kind"] + (":" + f["exc"] if f["kind"] in ("read", "convert", "calc") else ""))
                injected += 1
                seq.append((f["kind"], f["exc"], f["nth"], len(seq)))
                obs.same("changed-by-failed-fill", raw(x), before, "after a fill that raised {0}".format(type(err).__name__))
                require(list(x.fields) == beforefields, "fields-changed", lambda: "{0} vs {1}".format(x.fields, beforefields))
                ctx.checked()
                if not f["retry"]:
                    given = True
                    break
            if not given:
                args, kwargs, cols = build.deliver(op["rows"], fields, op["form"])
                sut("fill", x.fill, *args, **kwargs)
                sut("reference fill", reference.fill, good)
                filled += 1
                ctx.log("fill", len(op["rows"]), op["form"]["form"])
                obs.same("retried-fill", raw(x), raw(reference), "after the retried fill")
                ctx.checked()
            if twin is not None:
                obs.same("twin", raw(twin), twinraw, "copy-on-fill twin")
        elif op["op"] == "clear":
            x.clear()
            reference.clear()
        elif op["op"] == "pickle":
            x = sut("pickle", lambda: pickle.loads(pickle.dumps(x)))
        elif op["op"] in ("copy", "copyonfill"):
            x = sut("copy", getattr(x, op["op"]))
        elif op["op"] == "read":
            for p, h in build.hists(x):
                sut("table", h.table)
    obs.same("final", raw(x), raw(reference), "at the end")
    ctx.nontrivial = injected > 0 and filled > 0
    ctx.sigs.append([[[a["kind"], a["expr"]] for p, sp in gen.leaves(root) for a in sp["axes"]], seq])

def shrink(plan):
    from sim.shrink import ops_and_rows, patched
    for p in ops_and_rows(plan):
        if all(op["op"] != "fill" or len(op["rows"]) for op in p["ops"]):
            yield p
    for i, op in enumerate(plan["ops"]):
        for j in range(len(op.get("faults", []))):
            yield patched(plan, ops=plan["ops"][:i] + [dict(op, faults=op["faults"][:j] + op["faults"][j + 1:])] + plan["ops"][i + 1:])
        if op["op"] == "fill" and op["form"] != gen.PLAIN_FORM:
            yield patched(plan, ops=plan["ops"][:i] + [dict(op, form=gen.PLAIN_FORM)] + plan["ops"][i + 1:])
    for t in gen.smaller_trees(plan["root"]):
        yield patched(plan, root=t)
    if plan["twin"]:
        yield patched(plan, twin=False)
