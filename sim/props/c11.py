"""C11: reducing a live histogram equals having filled the reduced one."""
import copy
import pickle
import random

from sim import build, faulty, gen, model, obs
from sim.core import sut, Violation, require
from sim.gen import num

import numpy
import histbook

ID = "C11"
RUNS = {"quick": 9000, "thorough": 250000}
LEVEL = "exploration"
RULE = "one run = one histogram shape, two shards of it under a random history of fills (some failing half-way), merges, scalings, clears and save/restores, with reductions taken at random moments (also from inside a fill, from the data source); reduced histograms live on: they are reduced again, filled, merged and scaled; each is compared with a histogram declared with the reduced axes and given the same history, with the selection applied to the data; non-trivial if a reduction of a filled histogram was compared; distinct by axes and sequence of operations"
COMPONENTS = {"real": ["histbook.proj", "histbook.axis", "fill, merge, scaling, pickle, JSON"], "simulated": ["operation scheduler, data source with failures and call-backs", "selection of rows by direct evaluation"], "stub": []}
ASSUMPTIONS = ["direct fills are right (C01)", "thresholds align with edges, as select documents; others must be rejected", "cut conditions joined with 'and' cannot be selected as a whole (documented by the ValueError)"]

SAFECUT = {"b": "", "y > 0": "y", "x >= 1": "x", "b or y <= 1": "", "k in {1, 3}": "k", "g in {'aa', 'c'}": "g", "k not in {0, 2}": "k", "y == 1": "y", "n != 2": "n", "not (y > 0 and b)": "", "not (z > 1)": "z", "x > 0 or n > 2": "", "y + z >= 0.5": "", "not b": ""}

# ---------------------------------------------------------------- reductions of specifications

def indep(sp):
    return [i for i, a in enumerate(sp["axes"]) if a["kind"] != "profile"]

def isgroup(a):
    return a["kind"] in ("groupby", "groupbin")

def ordered(axes):
    return [a for a in axes if isgroup(a)] + [a for a in axes if not isgroup(a) and a["kind"] != "profile"] + [a for a in axes if a["kind"] == "profile"]

def edges(a):
    if a["kind"] == "split":
        return list(a["edges"])
    if a["kind"] == "intbin":
        return [i - 0.5 for i in range(a["min"], a["max"] + 2)]
    n = a["numbins"]
    return [(float(i) / n) * (a["high"] - a["low"]) + a["low"] for i in range(n)] + [a["high"]]

def tosplit(a, es):
    return {"kind": "split", "expr": a["expr"], "fields": a["fields"], "edges": es, "underflow": a["underflow"], "overflow": a["overflow"], "nanflow": a.get("nanflow", False), "closedlow": a.get("closedlow", True)}

def selected(a, cmp, value):
    """The axis that a selection leaves; None if nothing is left."""
    out = dict(a)
    k = a["kind"]
    if isgroup(a):
        return out
    if value in ("inf", "-inf") or (value == "nan" and cmp == "!="):
        if k != "intbin":
            out["nanflow"] = False
    elif value == "nan":
        out["underflow"] = out["overflow"] = False
        if k == "bin":
            out["numbins"], out["high"] = 0, a["low"]
        else:
            out["edges"] = a["edges"][:1]
    elif k == "intbin":
        if cmp in ("<", "<="):
            out["max"] = value - (cmp == "<")
            out["overflow"] = False
        else:
            out["min"] = value + (cmp == ">")
            out["underflow"] = False
        if out["min"] > out["max"]:
            return None
    else:
        es = edges(a) if k == "split" or a["numbins"] > 0 else [a["low"]]
        i = min(range(len(es)), key=lambda j: abs(es[j] - value))
        if cmp[0] == "<":
            out["overflow"] = False
            es = es[:i + 1]
        else:
            out["underflow"] = False
            es = es[i:]
        out["nanflow"] = False
        if k == "split":
            out["edges"] = es
        else:
            out["numbins"], out["low"], out["high"] = len(es) - 1, es[0], es[-1]
    if gen.totbins(out) == 0:
        return None
    return out

def reduced(sp, step):
    """(specification after the step, list of conditions on the data)."""
    how, axes = step["how"], list(sp["axes"])
    cond = []
    if how == "project":
        # what an axis without flow bins did not count cannot come back
        cond = [{"in": a} for i, a in enumerate(axes) if i not in step["keep"] and a["kind"] in ("bin", "intbin", "split", "groupbin")]
        axes = [a for i, a in enumerate(axes) if i in step["keep"] or a["kind"] == "profile"]
    elif how == "drop":
        axes = [a for i, a in enumerate(axes) if i not in step["drop"]]
    elif how == "rebin":
        axes[step["axis"]] = tosplit(axes[step["axis"]], sorted(step["edges"]))
    elif how == "rebinby":
        a, f = axes[step["axis"]], step["factor"]
        if a["kind"] == "groupbin":
            axes[step["axis"]] = dict(a, binwidth=a["binwidth"] * f)
        else:
            es = edges(a)
            axes[step["axis"]] = tosplit(a, es[0:-1:f] + es[-1:])
    elif how == "cut":
        a = axes.pop(step["axis"])
        cond = [{"cut": a["expr"], "want": step["want"]}]
    elif how == "select":
        for i, cmp, v in step["conds"]:
            axes[i] = selected(axes[i], cmp, v)
            cond.append({"expr": axes[i]["expr"], "cmp": cmp, "value": v})
    elif how == "groupor":
        cond = [{"or": [[{"expr": axes[step["axis"]]["expr"], "cmp": c, "value": v} for c, v in alt] for alt in step["alts"]]}]
    else:
        raise AssertionError(how)
    return dict(sp, axes=axes), cond

def passes(sp, row, cond):
    env = model.environment(sp, row)
    return all(holds(env, c) for c in cond)

def holds(env, c):
    if "cut" in c:
        return bool(model.ev(c["cut"], env)) == c["want"]
    if "in" in c:
        return model.place(c["in"], model.ev(c["in"]["expr"], env)) is not model.DROP
    if "or" in c:
        return any(all(holds(env, x) for x in alt) for alt in c["or"])
    v, cmp, value = model.ev(c["expr"], env), c["cmp"], c["value"]
    if value == "nan":
        return (v != v) == (cmp == "==")
    if value in ("inf", "-inf"):
        return v == v and (len(cmp) == 2 or v != float(value))
    return {"<": lambda: v < value, "<=": lambda: v <= value, ">": lambda: v > value, ">=": lambda: v >= value, "==": lambda: v == value, "!=": lambda: v != value, "in": lambda: v in value, "not in": lambda: v not in value}[cmp]()

# ---------------------------------------------------------------- plans

def different(rng, sp):
    """No two axes show the same quantity (or selections by expression would be ambiguous)."""
    envs = [model.environment(sp, gen.row(rng, {"finite": True})) for i in range(8)]
    seen = set()
    for a in sp["axes"]:
        v = (a["kind"] == "profile",) + tuple(repr(float(x) if not isinstance(x, str) else x) for x in (model.ev(a["expr"], e) for e in envs))
        if v in seen or len(set(v[1:])) == 1:
            return False
        seen.add(v)
    return True

def ambiguous(sp, i):
    """May a condition on this axis be taken for a condition on another?"""
    fs = set(sp["axes"][i]["fields"])
    k = sp["axes"][i]["kind"]
    return any(j != i and set(a["fields"]) == fs and "cut" in (k, a["kind"]) for j, a in enumerate(sp["axes"]) if a["kind"] != "profile")

def lit(v):
    return "{" + ", ".join(repr(x) for x in v) + "}" if isinstance(v, list) else v if v in ("inf", "-inf", "nan") else repr(v)

def condition(rng, a):
    """A valid condition on this axis: (cmp, value), or None."""
    k = a["kind"]
    if k == "groupby":
        keys = gen.KEYS + ["zz"] if a["expr"] == "g" else [0, 1, 2, 3, -1]
        cmp = rng.choice(["==", "!=", "<", "<=", ">", ">=", "in", "not in"])
        return (cmp, rng.sample(keys, rng.randint(1, 2)) if "in" in cmp else rng.choice(keys))
    r = rng.random()
    if k != "intbin" and r < 0.08:
        return (rng.choice(["==", "!=", "!="]), "nan")
    if r < 0.17:
        return rng.choice([("<=", "inf"), (">=", "-inf")] if k in ("bin", "split") else [("<=", "inf"), (">=", "-inf"), ("<", "inf"), (">", "-inf")])
    if k == "intbin":
        return (rng.choice(["<", "<=", ">", ">="]), rng.randint(a["min"], a["max"]))
    cmp = rng.choice(["<", ">="] if a["closedlow"] else ["<=", ">"])
    if k == "groupbin":
        return (cmp, a["origin"] + rng.randint(-3, 3) * a["binwidth"])
    return (cmp, rng.choice(edges(a) if k == "split" or a["numbins"] > 0 else [a["low"]]))

FOCUS = {   # runs about one kind of reduction: (its steps, shapes of the histogram)
    "drop": (["drop", "drop", "drop", "project", "rebinby"], {"nprofile": [2, 3, 3, 4], "nfixed": [0, 1, 1, 2], "ngroup": [0, 0, 1]}),
    "fraction": (["project", "select", "cut"], {"kinds": ["cut", "cut", "bin", "split"], "nfixed": [2, 3, 3, 4], "nprofile": [0, 0, 1], "ngroup": [0, 0, 1, 2]}),
    "project": (["project", "project", "select", "groupor"], {"ngroup": [1, 2, 2, 3], "nfixed": [0, 1, 1, 2], "nprofile": [0, 0, 1, 2]}),
    "group": (["select", "select", "groupor", "rebinby", "project"], {"ngroup": [1, 1, 2], "nfixed": [0, 1], "nprofile": [0, 1]}),
}

def step(rng, sp, hows=None):
    """A random valid reduction of a histogram of this specification, or None."""
    ind = indep(sp)
    prof = [i for i, a in enumerate(sp["axes"]) if a["kind"] == "profile"]
    how = rng.choice(hows or ["project", "drop", "rebin", "rebin", "rebinby", "rebinby", "select", "select", "select", "cut", "groupor"])
    spell = rng.choice(["axis", "expr", "expr"])
    if how == "project":
        if not ind:
            return None
        keep = [i for i in ind if rng.random() < 0.6]
        return {"how": how, "keep": keep, "spell": rng.choice(["axis", "expr", "int"]), "order": rng.randint(0, 99)}
    if how == "drop":
        if not prof or (not ind and len(prof) < 2):
            return None
        d = rng.sample(prof, rng.randint(1, len(prof) if ind else len(prof) - 1))
        return {"how": how, "drop": d, "spell": spell}
    if how == "rebin":
        c = [i for i in ind if sp["axes"][i]["kind"] in ("bin", "split", "intbin") and sp["axes"][i].get("numbins") != 0]
        if not c:
            return None
        i = rng.choice(c)
        a = sp["axes"][i]
        es = edges(a)
        keep = [e for e in es if rng.random() < 0.6]
        if not keep:
            keep = [rng.choice(es)]
        if gen.totbins(tosplit(a, keep)) == 0:
            return None
        rng.shuffle(keep)
        return {"how": how, "axis": i, "edges": keep, "spell": spell}
    if how == "rebinby":
        c = [i for i in ind if sp["axes"][i]["kind"] in ("bin", "split", "intbin", "groupbin") and sp["axes"][i].get("numbins") != 0]
        if not c:
            return None
        return {"how": how, "axis": rng.choice(c), "factor": rng.choice([1, 2, 2, 3, 4, 7]), "spell": spell}
    if how == "cut":
        c = [i for i in ind if sp["axes"][i]["kind"] == "cut" and sp["axes"][i]["expr"] in SAFECUT and not ambiguous(sp, i)]
        if not c:
            return None
        i = rng.choice(c)
        return {"how": how, "axis": i, "want": not (sp["axes"][i]["expr"] == "b" and rng.random() < 0.5)}
    c = [i for i in ind if sp["axes"][i]["kind"] != "cut" and not ambiguous(sp, i)]
    if how == "groupor":
        c = [i for i in c if sp["axes"][i]["kind"] == "groupby"]
        if not c:
            return None
        i = rng.choice(c)
        return {"how": how, "axis": i, "alts": [[condition(rng, sp["axes"][i]) for k in range(rng.choice([1, 1, 2]))] for j in range(rng.randint(2, 3))]}
    if not c:
        return None
    conds, now = [], list(sp["axes"])
    for j in range(rng.choice([1, 1, 1, 2, 2, 3])):
        i = rng.choice(c)
        got = condition(rng, now[i])
        if got is None:
            continue
        a = selected(now[i], *got)
        if a is None:
            continue
        if j > 0 and ("inf" in str(got[1]) or "nan" in str(got[1])):
            continue    # two conditions on one axis are applied in an order of their own
        if j > 0 and any(x[0] == i for x in conds):
            # both orders must be possible
            k = [x for x in conds if x[0] == i]
            if len(k) > 1 or selected(sp["axes"][i], *got) is None or not isinstance(got[1], (int, float)) or not isinstance(k[0][2], (int, float)) or got[0][0] == k[0][1][0]:
                continue
            if sp["axes"][i]["kind"] == "intbin":
                b = selected(sp["axes"][i], *got)
                if not b["min"] <= k[0][2] <= b["max"]:
                    continue
        now[i] = a
        conds.append([i, got[0], got[1]])
    if not conds:
        return None
    return {"how": "select", "conds": conds, "form": rng.choice(["plain", "flip", "chain"])}

def reject(rng, sp):
    """A reduction that must be refused."""
    ind = indep(sp)
    how = rng.choice(["threshold", "inequality", "edge", "factor", "axis", "profile", "nonbool", "empty"])
    c = [i for i in ind if sp["axes"][i]["kind"] in ("bin", "split") and sp["axes"][i].get("numbins") != 0 and not ambiguous(sp, i)]
    if how in ("threshold", "inequality", "edge", "empty") and not c:
        return None
    out = {"how": how}
    if c:
        i = out["axis"] = rng.choice(c)
        a = sp["axes"][i]
        es = edges(a)
        if how == "threshold":
            out["cmp"], out["value"] = rng.choice(["<", ">="] if a["closedlow"] else ["<=", ">"]), rng.choice([es[-1] + 0.0625, es[0] - 0.0625, es[-1] + 1000, es[0] - 1000.5, es[0] + 1e-6])
        elif how == "inequality":
            out["cmp"], out["value"] = rng.choice(["<=", ">", "=="] if a["closedlow"] else ["<", ">=", "!="]), rng.choice(es)
        elif how == "edge":
            out["edges"] = rng.sample(es, rng.randint(0, min(2, len(es)))) + [rng.choice([es[-1] + 0.0625, es[0] - 7, es[0] + 1e-6])]
        elif how == "empty":
            out["cmp"], out["value"] = ("<" if a["closedlow"] else "<=", es[0]) if not a["underflow"] else (">=" if a["closedlow"] else ">", es[-1])
            if selected(a, out["cmp"], out["value"]) is not None:
                return None
    return out

def generate(rng, tier):
    focus = rng.choice(sorted(FOCUS)) if rng.random() < 0.45 else None
    hows = FOCUS[focus][0] if focus else None
    while True:
        opts = {"rexpr": 0.5} if rng.random() < 0.25 else {}
        opts.update(dict({"ngroup": [0, 0, 1, 1, 2], "nfixed": [0, 1, 1, 2, 2, 3]}, **(FOCUS[focus][1] if focus else {})))
        sp = gen.spec(rng, attach=True, distinct=1, maxsize=150, **opts)
        sp = dict(sp, axes=ordered(sp["axes"]))
        if indep(sp) and different(rng, sp):
            break
    if rng.random() < 0.5:
        # conditions that can be selected
        for a in sp["axes"]:
            if a["kind"] == "cut":
                a["expr"], a["fields"] = rng.choice([("b", ["b"]), ("b", ["b"]), ("y > 0", ["y"]), ("k in {1, 3}", ["k"])])
            elif focus == "group" and a["kind"] == "groupby" and rng.random() < 0.5:
                a["expr"], a["fields"] = "g", ["g"]
        if not different(rng, sp) or len(set((a["kind"] == "profile", a["expr"]) for a in sp["axes"])) != len(sp["axes"]):
            return generate(rng, tier)
    pool = [[0, sp], [1, sp]]
    ops = []
    most = {0: 100, 1: 60, 2: 12}.get(sum(1 for a in sp["axes"] if isgroup(a)), 5)      # a fill makes every combination of its categories
    for i in range(rng.choice([4, 6, 8, 12] if tier == "quick" else [6, 10, 16, 24])):
        r = rng.random()
        oid, osp = rng.choice(pool[:2] if rng.random() < 0.6 else pool)
        bare = not osp["axes"]
        op = {"of": oid}
        if i == 0 and rng.random() < 0.85 or r < 0.25:
            if bare:
                continue
            op.update({"op": "fill", "rows": gen.rows(rng, min(gen.batchsize(rng), most)), "form": gen.form(rng, osp)})
        elif r < 0.29:
            if bare:
                continue
            op.update({"op": "failfill", "rows": gen.rows(rng, rng.randint(1, 6)), "nth": rng.randint(0, 4), "exc": rng.choice(["error", "ioerror", "memory", "interrupt", "keyerror"])})
        elif r < 0.34:
            op.update({"op": "scale", "by": rng.choice([2, 0.5, -1, 0, 3])})
        elif r < 0.37:
            op.update({"op": "roundtrip", "how": rng.choice(["pickle", "json", "copy", "copyonfill", "deepcopy"])})
        elif r < 0.38:
            op.update({"op": "clear"})
        elif r < 0.44:
            same = [j for j, s in pool if s is osp or s == osp]
            op.update({"op": rng.choice(["iadd", "iadd", "add"]), "with": rng.choice(same), "id": 100 + i})
            if op["op"] == "add":
                pool.append([op["id"], osp])
        elif r < (0.75 if focus == "fraction" else 0.50):
            cuts = [j for j, a in enumerate(osp["axes"]) if a["kind"] == "cut"]
            if not cuts:
                continue
            op.update({"op": "fraction", "cuts": rng.sample(cuts, max(1, rng.randint(0, len(cuts)))), "spell": rng.choice(["axis", "expr"]), "error": rng.choice([None, "normal", "wilson"])})
        elif r < (0.78 if focus == "fraction" else 0.57):
            x = reject(rng, osp)
            if x is None:
                continue
            op.update({"op": "reject", "what": x})
        else:
            steps, now = [], osp
            for j in range(rng.choice([1, 1, 1, 2, 3])):
                if not now["axes"]:
                    break
                s = step(rng, now, hows)
                if s is None:
                    continue
                steps.append(s)
                now = reduced(now, s)[0]
            if not steps:
                continue
            op.update({"op": "reduce", "steps": steps, "id": 100 + i})
            if not bare and r > 0.94:
                op.update({"op": "midfill", "rows": gen.rows(rng, rng.randint(1, 5)), "nth": rng.randint(0, 3)})
            pool.append([op["id"], now])
        ops.append(op)
    return {"spec": sp, "ops": ops}

# ---------------------------------------------------------------- execution

class Live(object):
    def __init__(self, h, sp, events):
        self.h, self.sp, self.events = h, sp, events

def filtered(events, sp, cond):
    out = []
    for e in events:
        if e[0] == "fill":
            out.append(("fill", [r for r in e[1] if passes(sp, r, cond)]))
        elif e[0] == "merge":
            out.append(("merge", filtered(e[1], sp, cond)))
        else:
            out.append(e)
    return out

DUMMY = [{"kind": "split", "expr": "y", "fields": ["y"], "edges": [0.0], "underflow": True, "overflow": True, "nanflow": True, "closedlow": True}]

def replay(sp, events):
    h = build.hist(sp)
    fields = gen.fields(sp)
    for e in events:
        if e[0] == "fill":
            build.fill(h, e[1], fields, gen.PLAIN_FORM)
        elif e[0] == "scale":
            h *= e[1]
        elif e[0] == "clear":
            h.clear()
        else:
            h += replay(sp, e[1])
    return h

def expected(sp, events):
    """(content, histogram) of a directly filled histogram."""
    if sp["axes"]:
        h = replay(sp, events)
        return obs.content(h), h
    # without any axis: the sum over the bins of an axis that loses nothing
    c = obs.content(replay(dict(sp, axes=DUMMY), events))
    if c is None:
        return None, None
    total = c[0]
    for x in c[1:]:
        total = obs.addlists(total, x)
    return (None if obs._zero(total) else total), None

def near(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(near(a[n], b[n]) for n in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) < 1e-9
    return a == b

def table(h):
    return _nonzero(obs.norm_table(h.table(*[a for a in h.axis if isinstance(a, histbook.profile)], recarray=False)))

def _nonzero(t):
    if isinstance(t, dict):
        t = dict((n, _nonzero(x)) for n, x in t.items())
        return dict((n, x) for n, x in t.items() if x is not None) or None
    return None if obs._zero(t) else t

def compare(o, what, ctx):
    want, ref = expected(o.sp, o.events)
    got = sut("read", obs.content, o.h)
    obs.same("content", got, want, what)
    declared = build.hist(o.sp) if ref is None else ref
    j, k = o.h.tojson(), declared.tojson()
    for n in ("axis", "weight", "filter", "defs", "attachment"):
        require(near(obs._plain(j.get(n)), obs._plain(k.get(n))), "declaration", lambda: "{0}: {1} of the reduced histogram {2}, declared {3}".format(what, n, j.get(n), k.get(n)))
    require(tuple(o.h.shape) == tuple(declared.shape), "declaration", lambda: "{0}: shape {1}, declared {2}".format(what, o.h.shape, declared.shape))
    if ref is not None:
        obs.same("table", sut("table", table, o.h), table(ref), what)
    ctx.checked()

def spelled(h, i, how):
    a = h.axis[i]
    return a if how == "axis" else i if how == "int" else a.expr

def condtext(expr, cmp, value, form):
    if form == "flip" and cmp in ("<", "<=", ">", ">="):
        return "{0} {1} ({2})".format(lit(value), {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[cmp], expr)
    return "({0}) {1} {2}".format(expr, cmp, lit(value))

def apply(h, sp, s):
    how = s["how"]
    if how == "project":
        keep = list(s["keep"])
        random.Random(s["order"]).shuffle(keep)
        return h.project(*[spelled(h, i, s["spell"]) for i in keep])
    if how == "drop":
        return h.drop(*[spelled(h, i, s["spell"]) for i in s["drop"]])
    if how == "rebin":
        have = h.axis[s["axis"]]
        have = have.edges if isinstance(have, histbook.split) else have.split().edges
        return h.rebin(spelled(h, s["axis"], s["spell"]), [min(have, key=lambda x: abs(x - e)) for e in s["edges"]])     # decimal edges are rounded
    if how == "rebinby":
        return h.rebinby(spelled(h, s["axis"], s["spell"]), s["factor"])
    if how == "cut":
        e = sp["axes"][s["axis"]]["expr"]
        return h.select(e if s["want"] else "not " + e)
    if how == "groupor":
        e = sp["axes"][s["axis"]]["expr"]
        return h.select(" or ".join("(" + " and ".join(condtext(e, c, v, "plain") for c, v in alt) + ")" for alt in s["alts"]))
    c = [(sp["axes"][i]["expr"], cmp, v) for i, cmp, v in s["conds"]]
    if s["form"] == "chain" and len(c) == 2 and c[0][0] == c[1][0] and sorted(x[1][0] for x in c) == ["<", ">"]:
        (e, cl, lo), (x, ch, hi) = sorted(c, key=lambda x: x[1][0] == "<")
        return h.select("{0} {1} ({2}) {3} {4}".format(lit(lo), {">": "<", ">=": "<="}[cl], e, ch, lit(hi)))
    return h.select(" and ".join(condtext(e, cmp, v, s["form"]) for e, cmp, v in c))

def reduceop(o, op, ctx):
    h, sp, events = o.h, o.sp, list(o.events)
    for s in op["steps"]:
        ctx.probe("reduce " + s["how"])
        old = sp
        sp, cond = reduced(sp, s)
        h = sut(s["how"], apply, h, old, s)
        if cond:
            events = filtered(events, old, cond)
        out = Live(h, sp, events)
        compare(out, "after " + s["how"], ctx)
    return out

def refused(o, x, ctx):
    h, sp = o.h, o.sp
    how = x["how"]
    e = sp["axes"][x["axis"]]["expr"] if "axis" in x else None
    if how in ("threshold", "inequality", "empty"):
        fn = lambda: h.select("({0}) {1} {2!r}".format(e, x["cmp"], x["value"]))
    elif how == "edge":
        fn = lambda: h.rebin(h.axis[x["axis"]], x["edges"])
    elif how == "factor":
        fn = lambda: h.rebinby("x", 0)
    elif how == "axis":
        fn = lambda: h.project("x*y*z*12345")
    elif how == "profile":
        fn = lambda: h.drop("x*y*z*12345")
    else:
        fn = lambda: h.select("x*y + 12345")
    try:
        got = fn()
    except Exception:
        ctx.fault("rejected " + how)
        return
    raise Violation("not-rejected", "{0} {1} gave {2}".format(how, x, got))

def counts(sp, events):
    """Counts of a directly filled histogram as nested dicts and lists."""
    if sp["axes"]:
        return obs.norm_table(replay(sp, events).table(recarray=False, error=False))
    c = expected(sp, events)[0]
    if c is None:
        return [0.0]
    return c[:1]

def fractions(den, nums):
    if isinstance(den, dict):
        return dict((n, fractions(x, [m.get(n) if m is not None else None for m in nums])) for n, x in den.items())
    if den and isinstance(den[0], list):
        return [fractions(x, [m[i] if m is not None else None for m in nums]) for i, x in enumerate(den)]
    d = den[0]
    return [d] + [(m[0] if m is not None else 0.0) / d if d > 0 else 0.0 for m in nums]

def frac(o, op, ctx):
    h, sp = o.h, o.sp
    den = dict(sp, axes=[a for i, a in enumerate(sp["axes"]) if i not in op["cuts"] and a["kind"] != "profile"])
    d = counts(den, o.events)
    nums = [counts(den, filtered(o.events, sp, [{"cut": sp["axes"][i]["expr"], "want": True}])) for i in op["cuts"]]
    want = fractions(d, nums)
    t = obs.norm_table(sut("fraction", lambda: h.fraction(*[spelled(h, i, op["spell"]) for i in op["cuts"]], recarray=False, error=op["error"])))
    if op["error"]:
        t = noerror(t, len(op["cuts"]))
    obs.same("fraction", _nonzero(t), _nonzero(want), "fraction")
    ctx.checked()
    ctx.probe("fraction")

def noerror(t, n):
    if isinstance(t, dict):
        return dict((k, noerror(x, n)) for k, x in t.items())
    if t and isinstance(t[0], list):
        return [noerror(x, n) for x in t]
    return [t[0]] + [t[1 + 2 * i] for i in range(n)]

def roundtrip(h, how):
    if how == "pickle":
        return pickle.loads(pickle.dumps(h))
    if how == "json":
        return histbook.Hist.fromjson(copy.deepcopy(h.tojson()))
    if how == "deepcopy":
        return copy.deepcopy(h)
    return getattr(h, how)()

def execute(plan, ctx):
    sp = plan["spec"]
    live = {0: Live(build.hist(sp), sp, []), 1: Live(build.hist(sp), sp, [])}
    ops = []
    for op in plan["ops"]:
        o = live.get(op["of"])
        if o is None:
            continue
        ctx.step()
        kind = op["op"]
        ops.append(kind)
        ctx.log(kind, op["of"])
        fields = gen.fields(o.sp)
        if kind == "fill":
            sut("fill", build.fill, o.h, op["rows"], fields, op["form"])
            o.events.append(("fill", op["rows"]))
        elif kind in ("failfill", "midfill"):
            reads = [0]
            box = []
            def on_read(name):
                reads[0] += 1
                if reads[0] == op["nth"] + 1:
                    if kind == "failfill":
                        ctx.fault("data source " + op["exc"])
                        raise faulty.EXC[op["exc"]]("injected at a read")
                    ctx.fault("reduction during a fill")
                    box.append(reduceop(o, op, ctx))
            a, k, c = build.deliver(op["rows"], fields, {"form": "lazy", "dtype": "f8", "seed": 1}, on_read)
            try:
                o.h.fill(*a, **k)
            except Violation:
                raise
            except BaseException as err:
                if kind == "midfill" or reads[0] < op["nth"] + 1 or isinstance(err, AssertionError):
                    raise Violation("exception:fill:" + type(err).__name__, err)
            else:
                o.events.append(("fill", op["rows"]))
            if box:
                live[op["id"]] = box[0]
        elif kind == "scale":
            o.h *= op["by"]
            o.events.append(("scale", op["by"]))
        elif kind == "clear":
            o.h.clear()
            o.events = [("clear",)]
        elif kind == "roundtrip":
            o.h = sut(op["how"], roundtrip, o.h, op["how"])
        elif kind in ("iadd", "add"):
            p = live.get(op["with"])
            if p is None or p.sp != o.sp:
                continue
            if kind == "iadd":
                h = o.h
                h += p.h
                o.h = h
                o.events.append(("merge", list(p.events)))
            else:
                live[op["id"]] = Live(sut("+", lambda: o.h + p.h), o.sp, list(o.events) + [("merge", list(p.events))])
        elif kind == "fraction":
            frac(o, op, ctx)
        elif kind == "reject":
            refused(o, op["what"], ctx)
        elif kind == "reduce":
            if o.events:
                ctx.nontrivial = True
            live[op["id"]] = reduceop(o, op, ctx)
    for i in sorted(live):
        compare(live[i], "at the end, object {0}".format(i), ctx)
    ctx.sigs.append(repr(([(a["kind"], a["expr"]) for a in sp["axes"]], ops)))

def shrink(plan):
    from sim.shrink import ops_and_rows, patched
    for p in ops_and_rows(plan):
        yield p
    for i, op in enumerate(plan["ops"]):
        if len(op.get("steps", [])) > 1:
            yield patched(plan, ops=plan["ops"][:i] + [dict(op, steps=op["steps"][:-1])] + plan["ops"][i + 1:])
    for n in ("weight", "filter"):
        if plan["spec"][n] is not None:
            yield patched(plan, spec=dict(plan["spec"], **{n: None}))
