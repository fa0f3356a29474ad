"""C04: saving and restoring is invisible; a crashed job resumes from its last complete checkpoint."""
import copy
import hashlib
import json
import pickle
import random

from sim import build, gen, obs
from sim.core import sut, Violation, require

import histbook
import histbook.book

ID = "C04"
RUNS = {"quick": 2400, "thorough": 70000}
LEVEL = "fault_enumeration"
RULE = "one run = one random histogram or nested book driven through fills, merges, scalings, derivations and attachments by a job that checkpoints to a simulated disk in changing formats and is crashed at seeded points (between operations, in the middle of a checkpoint write, before the sync, before the rename), then resumes; compared with the uninterrupted job after every restore and at the end; non-trivial if a restored object went on being used; distinct by (axes, formats, crash points)"
COMPONENTS = {"real": ["pickling, JSON and copying of Hist, books and axes, and everything the job calls"], "simulated": ["disk (buffered writes, sync, atomic rename, torn and lost writes), process crashes, job driver"], "stub": []}
ASSUMPTIONS = ["JSON text has only string keys, so JSON text is used for histograms whose groupby categories are strings"]

FORMATS = ["pickle0", "pickle2", "pickle", "json", "jsonobj", "deepcopy"]

def generate(rng, tier):
    text = rng.random() < 0.75
    opts = {"textgroups": text, "maxsize": 150, "attach": True}
    r = rng.random()
    if r < 0.5:
        root = {"spec": gen.spec(rng, **opts)}
    else:
        root = gen.tree(rng, classes=["Book", "Book", "ChannelsBook", "SamplesBook"], systematics=0.2, **dict(opts, cls=rng.choice(["Book", "Book", "Book", "ChannelsBook", "SamplesBook"])))
    specs = [sp for p, sp in gen.leaves(root)]
    formats = [f for f in FORMATS if text or f != "json"]
    ops = []
    for i in range(rng.choice([2, 3, 4, 5, 6])):
        r = rng.random()
        if r < 0.6:
            op = {"op": "fill", "rows": gen.rows(rng, gen.batchsize(rng)), "form": gen.form(rng, *specs)}
        elif r < 0.7:
            op = {"op": "merge", "rows": gen.rows(rng, gen.batchsize(rng)), "form": gen.form(rng, *specs), "how": rng.choice(["+", "+="])}
        elif r < 0.78:
            op = {"op": "scale", "by": rng.choice([2, 0.5, -1, 3]), "how": rng.choice(["*", "*="])}
        elif r < 0.82:
            op = {"op": "clear"}
        elif r < 0.86:
            op = {"op": "attach", "key": rng.choice(["fit", "note"]), "value": rng.choice([1, "text", [1, 2, {"a": None}], 2.5])}
        elif r < 0.97:
            op = {"op": "derive", "how": rng.choice(["project", "drop", "rebinby", "select", "copy", "cleared", "copyonfill", "samples", "samples", "samples"]), "n": rng.randint(0, 5)}
        else:
            op = {"op": "remove", "n": rng.randint(0, 5)}
        op["save"] = [rng.choice(formats) for j in range(rng.choice([0, 1, 1, 1, 2, 3]))]
        op["crash"] = rng.choice([None, None, None, None, "before", "torn", "unsynced", "unrenamed", "after"])
        op["frac"] = rng.random()
        ops.append(op)
    return {"root": root, "ops": ops, "more": {"rows": gen.rows(rng, 6), "form": gen.form(rng, *specs)}}

# ---------------------------------------------------------------- the simulated disk

class Crash(Exception):
    pass

class Disk(object):
    """What survives a crash: synced bytes of renamed files. Unsynced bytes survive as an arbitrary prefix."""
    def __init__(self, ctx):
        self.ctx = ctx
        self.durable = {}
        self.cache = {}
    def write(self, name, data, crash, frac):
        self.cache[name] = data
        if crash == "torn":
            self.ctx.fault("torn write")
            self.durable[name] = data[:int(len(data) * frac)]
            raise Crash()
        if crash == "unsynced":
            self.ctx.fault("lost write")
            raise Crash()
        self.durable[name] = data
    def rename(self, a, b):
        self.durable[b] = self.durable.pop(a)
        self.cache.pop(a, None)
    def crash(self):
        self.cache = {}

def seal(payload):
    return hashlib.sha256(payload).digest() + payload

def unseal(data):
    if len(data) < 32 or hashlib.sha256(data[32:]).digest() != data[:32]:
        return None
    return data[32:]

def fromobj(x):
    return histbook.Hist.fromjson(x) if x["type"] == "Hist" else histbook.book.GenericBook.fromjson(x)

def dump(x, fmt):
    if fmt == "json":
        return json.dumps(x.tojson()).encode()
    if fmt == "jsonobj":
        return pickle.dumps(x.tojson())
    if fmt == "deepcopy":
        return pickle.dumps(copy.deepcopy(x))
    return pickle.dumps(x, {"pickle0": 0, "pickle2": 2, "pickle": pickle.HIGHEST_PROTOCOL}[fmt])

def load(data, fmt):
    if fmt == "json":
        return fromobj(json.loads(data.decode()))
    if fmt == "jsonobj":
        return fromobj(pickle.loads(data))
    return pickle.loads(data)

# ---------------------------------------------------------------- the job

def fill(x, rows, fields, form):
    if isinstance(x, histbook.Hist):
        fields = [f for f in fields if f in x.fields]
        if not fields:
            return
        cols = build.columns(rows, fields, form["dtype"])
        x.fill(cols)
    elif isinstance(x, histbook.Book):
        if len(x.fields) == 0:
            return
        cols = build.columns(rows, fields, form["dtype"])
        x.fill(cols)
    else:
        for y in x.values():
            fill(y, rows, fields, form)

def apply(x, op, root, fields):
    """One deterministic operation of the job."""
    kind = op["op"]
    if kind == "fill":
        fill(x, op["rows"], fields, op["form"])
    elif kind == "merge":
        y = x.cleared()
        fill(y, op["rows"], fields, op["form"])
        if op["how"] == "+":
            x = x + y
        else:
            x += y
    elif kind == "scale":
        if op["how"] == "*":
            x = x * op["by"]
        else:
            x *= op["by"]
    elif kind == "clear":
        x.clear()
    elif kind == "attach":
        x.attach(op["key"], copy.deepcopy(op["value"]))
    elif kind == "derive":
        if op["how"] in ("copy", "cleared", "copyonfill"):
            x = getattr(x, op["how"])()
        elif op["how"] == "samples":
            # samples start from copies of what was filled so far
            if isinstance(x, histbook.Hist):
                x = histbook.SamplesBook(["data", "mc"], {"h": x})
            elif type(x) is histbook.Book and op["n"] % 2:
                x = histbook.SamplesBook(["data", "mc"], dict(x.items()))
        elif isinstance(x, histbook.Hist):
            x = derive(x, op["how"], op["n"])
    elif kind == "remove":
        if not isinstance(x, histbook.Hist):
            ks = x.keys(recursive=True)
            if len(ks) > 1:
                try:
                    del x[ks[op["n"] % len(ks)]]
                except ValueError:
                    pass
    return x

def derive(h, how, n):
    axes = list(h.axis)
    ind = [a for a in axes if not isinstance(a, histbook.profile)]
    if how == "project" and len(ind) > 1:
        return h.project(*[a for i, a in enumerate(ind) if i != n % len(ind)])
    if how == "drop" and len(ind) < len(axes):
        profs = [a for a in axes if isinstance(a, histbook.profile)]
        if len(profs) > 1 or ind:
            return h.drop(profs[n % len(profs)])
    if how == "rebinby":
        bins = [a for a in ind if isinstance(a, histbook.bin)]
        if bins:
            return h.rebinby(bins[n % len(bins)], 2)
    if how == "select":
        splits = [a for a in ind if isinstance(a, (histbook.bin, histbook.split))]
        if len(set(str(a.expr) for a in ind)) == len(ind) and splits:
            a = splits[n % len(splits)]
            edge = a.low if isinstance(a, histbook.bin) else a.edges[0]
            try:
                return h.select("{0} {1} {2!r}".format(a.expr, ">=" if a.closedlow else ">", edge))
            except Exception:
                return h
    return h

def observe(x):
    if obs.isbook(x):
        return {"type": type(x).__name__, "attachment": obs._plain(dict(x.attachment)), "items": [[n, observe(y)] for n, y in x.items()]}
    return {"meta": obs._plain(obs.meta(x)), "axes": [[type(a).__name__, repr(a)] for a in x.axis], "raw": norm(x.tojson().get("content")), "has": sorted(x.attachment)}

def norm(c):
    if isinstance(c, dict):
        return dict((obs.key(k), norm(v)) for k, v in c.items())
    return c

def react(x, more, fields):
    """What an object does next."""
    out = []
    for p, h in build.hists(x):
        try:
            t = h.table(recarray=False)
            out.append([p, obs.norm_table(t)])
        except Exception as err:
            out.append([p, type(err).__name__])
        out.append([p, list(h.fields)])
        for i, a in enumerate(h.axis):
            if isinstance(a, (histbook.groupby, histbook.groupbin)) and h.tojson().get("content") is not None:
                out.append([p, sorted(obs.key(k) for k in h.groupkeys(a))])
    y = x.copy()
    fill(y, more["rows"], fields, more["form"])
    out.append(obs.contents(y))
    z = x + y
    out.append(obs.contents(z))
    out.append(observe(z * 2))
    return out

def execute(plan, ctx):
    root = plan["root"]
    fields = gen.treefields(root)
    ref = sut("construct", build.tree, root)
    refs = []
    seqs = []
    for op in plan["ops"]:      # the uninterrupted job
        ref = sut("op:" + op["op"], apply, ref, op, root, fields)
        refs.append(observe(ref))

    disk = Disk(ctx)
    x = build.tree(root)
    # the job's first durable state is its construction: checkpoint "none"
    i = 0
    crashed = set()
    restored = 0
    used = 0
    guard = 0
    while i < len(plan["ops"]):
        guard += 1
        require(guard < 200, "hang", "job does not finish")
        ctx.step()
        op = plan["ops"][i]
        crash = op["crash"] if i not in crashed else None
        try:
            if crash == "before":
                ctx.fault("crash between operations")
                raise Crash()
            x = sut("op:" + op["op"], apply, x, op, root, fields)
            obs.same("diverged", observe(x), refs[i], "after operation {0} ({1})".format(i, op["op"]))
            ctx.checked()
            if restored:
                used += 1
            for f in op["save"]:
                before = observe(x)
                data = sut("save:" + f, dump, x, f)
                obs.same("changed-by-saving", observe(x), before, f)
                # whoever reads it back in the same process gets an equal object
                y = sut("restore:" + f, load, data, f)
                obs.same("roundtrip", observe(y), before, f)
                require(sut("==", lambda: x == y and y == x and not (x != y)), "not-equal", "restored from {0} is not == to the original".format(f))
                if ctx.steps % 3 == 0:
                    obs.same("reaction", sut("react", react, y, plan["more"], fields), sut("react", react, x, plan["more"], fields), f)
                    obs.same("reaction-aliasing", observe(x), before, "original after using the restored object")
                    obs.same("reaction-aliasing", observe(y), before, "restored after being read")
                ctx.checked(2)
                header = json.dumps([i + 1, f]).encode() + b"\n"
                ctx.log("checkpoint", i + 1, f, len(data), "crash" if crash else "")
                disk.write("ckpt.tmp", seal(header + data), crash, op["frac"])
                if crash == "unrenamed":
                    ctx.fault("crash before rename")
                    raise Crash()
                disk.rename("ckpt.tmp", "ckpt")
                seqs.append(f)
                if len(op["save"]) > 1:
                    x = y           # chain of formats: go on with the restored one
                    restored += 1
            if crash == "after":
                ctx.fault("crash between operations")
                raise Crash()
            i += 1
        except Crash:
            crashed.add(i)
            seqs.append([i, crash])
            disk.crash()
            x = None
            data = disk.durable.get("ckpt")
            if data is None:
                x = sut("construct", build.tree, root)
                i = 0
            else:
                payload = unseal(data)
                require(payload is not None, "harness", "checkpoint file torn after rename")
                header, data = payload.split(b"\n", 1)
                i, f = json.loads(header.decode())
                x = sut("restore:" + f, load, data, f)
                obs.same("restored", observe(x), refs[i - 1], "restored from {0}".format(f))
                ctx.checked()
                restored += 1
                ctx.probe("resumed from " + f)
            ctx.log("restart at", i)
    obs.same("final", observe(x), refs[-1], "at the end")
    ctx.nontrivial = restored > 0 and used > 0
    ctx.sigs.append([[[a["kind"], a["expr"]] for p, sp in gen.leaves(root) for a in sp["axes"]], root.get("type"), seqs])

def shrink(plan):
    from sim.shrink import ops_and_rows, patched
    for p in ops_and_rows(plan):
        if p["ops"]:
            yield p
    for i, op in enumerate(plan["ops"]):
        def put(**kw):
            return patched(plan, ops=plan["ops"][:i] + [dict(op, **kw)] + plan["ops"][i + 1:])
        if op["crash"]:
            yield put(crash=None)
        if op["save"]:
            yield put(save=[])
            yield put(save=op["save"][:1])
    for t in gen.smaller_trees(plan["root"]):
        yield patched(plan, root=t)
    if plan["more"]["rows"]:
        yield patched(plan, more=dict(plan["more"], rows=plan["more"]["rows"][:1]))
