"""C01: a fill history adds up to the row-by-row sum of documented bin contributions."""
import copy

from sim import build, faulty, gen, model, obs
from sim.core import sut, Violation, InjectedFault

ID = "C01"
RUNS = {"quick": 20000, "thorough": 120000}
LEVEL = "exploration"
FAULT_KINDS = ["failed-read"]
RULE = "one run = one random histogram (axes, flow options, weight, filter, definitions) and one random history of fills, refills, clears and reads delivered by the simulated data source; non-trivial if at least two fills delivered rows and at least one row reached a bin; distinct by (axis kinds and options, form sequence, batch sizes)"
COMPONENTS = {"real": ["histbook.hist", "histbook.fill", "histbook.instr", "histbook.calc", "histbook.axis", "histbook.expr", "histbook.proj (table, groupkeys)"], "simulated": ["data source (dict, keywords, chained, lazy item access, lists, scalars, strided/read-only/byte-swapped arrays)"], "stub": ["pandas.DataFrame (columns, item access, .values)"]}

def wide(rng):
    """A histogram with more bins than small integers can count."""
    sp = gen.spec(rng, ngroup=[0, 0, 0, 1], nfixed=[1, 2], kinds=["bin"], nprofile=[0, 0, 1], distinct=1, defs=0)
    bins = [a for a in sp["axes"] if a["kind"] == "bin" and "u" not in a["fields"]]
    for a in bins:
        a["numbins"] = rng.choice([32768, 65536, 131072]) if len(bins) == 1 else rng.choice([256, 512])
        a["low"], a["high"] = -4.0, 4.0
    return sp

def crowd(rng):
    """Many categories."""
    sp = gen.spec(rng, ngroup=[1], groupkinds=["groupby", "groupbin"], nfixed=[0, 1], nprofile=[0, 0, 1], distinct=1, defs=0, maxsize=10)
    for a in sp["axes"]:
        if a["kind"] == "groupby":
            a["expr"], a["fields"] = rng.choice([("n", ["n"]), ("g", ["g"]), ("n + k", ["n", "k"])])
        elif a["kind"] == "groupbin":
            a["expr"], a["fields"] = rng.choice([("n", ["n"]), ("n - k", ["n", "k"])])
            a["binwidth"] = 1.0
    rows = gen.rows(rng, rng.choice([80, 300, 600]))
    for i, r in enumerate(rows):
        r["n"], r["g"] = rng.randint(-500, 500), "cat%d" % rng.randint(0, 500)
    return sp, rows

def extreme(rng, sp, ops):
    """Very large numbers and negative zeros."""
    if all(a["expr"] == "x" or "x" not in a["fields"] for a in sp["axes"]) and "x" not in sp["wfields"] + sp["ffields"]:
        for op in ops:
            for r in op.get("rows", []):
                if rng.random() < 0.3:
                    r["x"] = rng.choice([1e300, -1e300, -0.0, -0.0, 2.0**63, -2.0**63, 2.0**31, -2.0**31 - 1])
                if rng.random() < 0.1 and not any(a.get("math") for a in sp["axes"]):
                    r["y"] = -0.0

def enrich(rng, sp):
    """Rarer ways of writing the same kinds of histograms."""
    for a in sp["axes"]:
        if a["kind"] == "groupby" and rng.random() < 0.15:
            a["expr"], fs = rng.choice([("b", "b"), ("floor(y)", "y"), ("y", "y"), ("where(b, k, n)", "bkn"), ("abs(n)", "n"), ("k % 2", "k"), ("n - k", "nk")])
            a["fields"] = list(fs)
    numeric = [a for a in sp["axes"] if a["kind"] in ("bin", "split", "profile") and "u" not in a["fields"] and not a.get("math")]
    if not sp["defs"] and numeric and rng.random() < 0.25:
        a = rng.choice(numeric)
        r = rng.random()
        if r < 0.35:
            # a number under a name
            sp["defs"]["c0"] = rng.choice([2, 0.5, -1, 3, 1.5, 0.25])
            a["expr"] = rng.choice(["c0*({0})", "({0}) + c0", "c0 - ({0})", "({0})*c0 - c0"]).format(a["expr"])
        elif r < 0.6:
            # two definitions, used together and in the weight
            sp["defs"].update([("d1", "y - z"), ("d2", "2*z")])
            a["expr"], a["fields"] = rng.choice(["d1 + d2", "d1*d2", "d2 - d1", "where(d1 > d2, d1, d2)", "max(d1, d2)"]), ["y", "z"]
            if sp["wfields"] and sp["filter"] is None:
                sp["weight"], sp["wfields"] = "d2*d2", ["z"]
        elif r < 0.8:
            # a definition with the name of a column it is made of
            sp["defs"]["z"] = rng.choice(["2*z", "z - 1", "-z"])
        else:
            # a definition that takes the place of a column
            sp["defs"]["z"] = rng.choice(["y - 1", "2*y", "y + k"])
            use = ["y", "k"] if "k" in sp["defs"]["z"] else ["y"]
            def instead(fs):
                return sorted(set(f for f in fs if f != "z") | set(use if "z" in fs else []))
            for b in sp["axes"]:
                b["fields"] = instead(b["fields"])
            sp["wfields"], sp["ffields"] = instead(sp["wfields"]), instead(sp["ffields"])
    if sp["defs"] and rng.random() < 0.2:
        sp["defexpr"] = True
    if rng.random() < 0.1:
        sp["fluent"] = rng.choice([1, 2])
    return sp

def variant(rng):
    return {"profiles": [rng.randint(0, 5) for i in range(rng.choice([0, 1, 1, 2, 3]))], "spell": rng.random() < 0.5, "count": rng.random() < 0.8, "error": rng.random() < 0.7, "effcount": rng.random() < 0.4, "recarray": rng.random() < 0.7}

def generate(rng, tier):
    r = rng.random()
    shape = {}
    if rng.random() < 0.03:
        shape = rng.choice([{"ngroup": [0, 1], "nfixed": [4, 5], "nprofile": [0, 1], "maxsize": 5000}, {"ngroup": [0, 1], "nfixed": [0, 1], "nprofile": [3, 4, 5]}])
    elif rng.random() < 0.08:
        shape = {"ngroup": [3, 3, 3, 4], "nfixed": [0, 1, 1, 2], "nprofile": [0, 0, 1], "distinct": 1}
    elif rng.random() < 0.03:
        shape = {"ngroup": [0], "nfixed": [1], "nprofile": [0], "weight": 0, "filter": 0, "defs": 0, "plain": True}
    sp = gen.spec(rng, rexpr=0.6 if r < 0.35 else 0, math=0.5 if 0.35 <= r < 0.5 else 0, **shape)
    while not shape and r >= 0.35:
        rich = enrich(rng, copy.deepcopy(sp))
        if all(gen._varies(rng, e, rich) for e in [a["expr"] for a in rich["axes"]] + [rich["weight"], rich["filter"]] if isinstance(e, str)):
            sp = rich
            break
    if rng.random() < 0.01:
        sp = wide(rng)
    ops = []
    for i in range(rng.choice([1, 2, 2, 3, 3, 4, 6])):
        r = rng.random()
        if r < 0.80 or i == 0:
            ops.append({"op": "fill", "rows": gen.rows(rng, gen.batchsize(rng)), "form": gen.form(rng, sp)})
            if rng.random() < 0.08:
                ops[-1]["flaky"] = rng.randint(0, 5)
        elif r < 0.88:
            ops.append({"op": "again", "times": rng.choice([1, 1, 1, 2, 3, 10, 40])})
        elif r < 0.92:
            ops.append({"op": "clear"})
        else:
            ops.append({"op": "read"})
    if rng.random() < 0.02 and sum(a["kind"] in ("groupby", "groupbin") for a in sp["axes"]) < 3:
        ops.append({"op": "fill", "rows": gen.rows(rng, 2500), "form": gen.form(rng, sp)})
    if rng.random() < 0.01:
        sp, rows = crowd(rng)
        ops = [{"op": "fill", "rows": rows[i::3], "form": gen.form(rng, sp)} for i in range(3)]
    if sum(a["kind"] in ("groupby", "groupbin") for a in sp["axes"]) >= 3:
        # an array fill visits every combination of the categories it meets: keep the batches short
        for op in ops:
            if op["op"] == "fill":
                op["rows"] = op["rows"][:12]
            elif op["op"] == "again":
                op["times"] = min(op["times"], 2)
    if rng.random() < 0.06:
        extreme(rng, sp, ops)
    if rng.random() < 0.01 and sum(a["kind"] in ("groupby", "groupbin") for a in sp["axes"]) < 2:
        # more rows than small integers or buffers can count
        ops.append({"op": "fill", "rows": gen.rows(rng, rng.choice([50, 300])), "form": gen.form(rng, sp), "tile": rng.choice([20, 110, 300])})
    return {"spec": sp, "names": gen.names(rng, sp) if rng.random() < 0.12 else {}, "ops": ops, "ctorfill": rng.random() < (0.7 if "plain" in shape else 0.15), "variants": [variant(rng) for i in range(rng.choice([0, 1, 2]))]}

def execute(plan, ctx):
    sp = plan["spec"]
    fields = gen.fields(sp)
    names = plan["names"]
    if names:
        sp = dict(gen.renamed(sp, names), names=names)
        ctx.probe("columns under other names")
    m = model.Model(sp)
    ops = list(plan["ops"])
    last = None
    filled = 0
    if plan["ctorfill"] and ops and ops[0]["op"] == "fill":
        cols = build.columns(ops[0]["rows"], fields, ops[0]["form"]["dtype"])
        cols = dict((names.get(n, n), c) for n, c in cols.items())
        if len(sp["axes"]) == 1 and list(cols) == [sp["axes"][0]["expr"]] and ops[0]["form"]["seed"] % 2:
            # one axis, one field: the bare array says it all
            h = sut("construct", build.hist, sp, fill=cols[sp["axes"][0]["expr"]])
            ctx.probe("fill-in-constructor with a bare array")
        else:
            h = sut("construct", build.hist, sp, fill=cols)
        m.fill(ops[0]["rows"])
        last = (ops[0]["rows"], (cols,), {})
        ops = ops[1:]
        ctx.probe("fill-in-constructor")
        filled += 1
    else:
        h = sut("construct", build.hist, sp)
    for op in ops:
        ctx.step()
        if op["op"] == "fill":
            times = op.get("tile", 1)
            args, kwargs, cols = build.deliver(op["rows"] * times, fields, op["form"])
            args, kwargs = build.rename(args, kwargs, names)
            ctx.log("fill", len(op["rows"]), op["form"]["form"], op["form"]["dtype"])
            if "flaky" in op and "tile" not in op:
                # the source fails while being read; the caller tries again, and the rows count once
                src = faulty.Source(build.rename((), build.columns(op["rows"], fields, op["form"]["dtype"]), names)[1], op["flaky"], "error")
                try:
                    h.fill(src)
                except InjectedFault:
                    ctx.fault("failed-read")
                else:
                    m.fill(op["rows"])
                    filled += 1
                    continue
            sut("fill", h.fill, *args, **kwargs)
            m.fill(op["rows"], times)
            last = (op["rows"] * times, args, kwargs)
            ctx.probe("form:" + op["form"]["form"])
            if len(op["rows"]) == 0:
                ctx.probe("empty-batch")
            else:
                filled += 1
            for r in op["rows"]:
                if not isinstance(r["x"], float) and "x" in fields:
                    ctx.probe("x=" + str(r["x"]))
        elif op["op"] == "again" and last is not None:
            times = op["times"] if len(last[0]) < 2000 else 1
            for i in range(times):
                sut("fill", h.fill, *last[1], **last[2])
            m.fill(last[0], times)
            filled += 1
            ctx.probe("same arrays filled again")
        elif op["op"] == "clear":
            sut("clear", h.clear)
            m.clear()
            ctx.probe("cleared")
        elif op["op"] == "read":
            sut("table", obs.versus_model, h, m, ctx)
    sut("table", obs.versus_model, h, m, ctx)
    sut("labels", obs.labels, h, m)
    for v in plan["variants"]:
        sut("table", obs.tablevariant, h, m, v)
    want = sorted(names.get(f, f) for f in fields)
    got = [f for f in h.fields if f not in ("pi", "e")]     # constants that a column of that name may override
    if got != want:
        # constants folded away are fine, missing needed ones are not: every listed field must be used
        if not set(got) <= set(want):
            raise Violation("fields", "{0} vs {1}".format(got, want))
    for a in sp["axes"]:
        ctx.probe("axis:" + a["kind"])
    ctx.nontrivial = filled >= 2 and len(m.bins) > 0
    ctx.sigs.append([[(a["kind"], a["expr"], [a.get(k) for k in ("underflow", "overflow", "nanflow", "closedlow")]) for a in sp["axes"]], sp["weight"], sp["filter"], [(o["op"], len(o.get("rows", [])), o.get("form", {}).get("form")) for o in plan["ops"]]])

def shrink(plan):
    from sim.shrink import ops_and_rows, without, patched
    for p in ops_and_rows(plan):
        yield p
    sp = plan["spec"]
    if len(sp["axes"]) > 1:
        for i in range(len(sp["axes"])):
            yield patched(plan, spec=dict(sp, axes=without(sp["axes"], i)))
    for k, v, f in (("weight", None, "wfields"), ("filter", None, "ffields")):
        if sp[k] is not None:
            yield patched(plan, spec=dict(sp, **{k: v, f: []}))
    if plan["ctorfill"]:
        yield patched(plan, ctorfill=False)
    if plan["names"]:
        yield patched(plan, names={})
    for i, op in enumerate(plan["ops"]):
        if op["op"] == "fill" and op["form"] != gen.PLAIN_FORM:
            yield patched(plan, ops=plan["ops"][:i] + [dict(op, form=gen.PLAIN_FORM)] + plan["ops"][i + 1:])
