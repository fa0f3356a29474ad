"""C02: merging partial histograms gives the single-pass result in any order."""
import copy
import functools
import json
import numpy
import pickle
import random

from sim import build, gen, obs
from sim.core import sut, Violation, require

import histbook
import histbook.book

ID = "C02"
RUNS = {"quick": 4500, "thorough": 60000}
LEVEL = "exploration"
RULE = "one run = one random histogram or nested book, rows dealt to tasks, a seeded event loop that executes tasks on simulated workers, loses, duplicates, delays and reorders their results, crashes and re-executes workers, and merges arrived parts in a random tree; non-trivial if at least two parts with data were merged; distinct by (axes, transports, order of deliveries and merges)"
COMPONENTS = {"real": ["histbook.Hist and books: fill, +, +=, *, *=, group, togroup, project, pickling, JSON"], "simulated": ["workers, scheduler, transport between workers and driver, merge driver"], "stub": []}
ASSUMPTIONS = ["data and weights are dyadic, so sums are exact in any order"]

def generate(rng, tier):
    json_ok = rng.random() < 0.6
    opts = {"textgroups": json_ok, "maxsize": 200}
    if rng.random() < 0.55:
        root = {"spec": gen.spec(rng, **opts)}
    else:
        root = gen.tree(rng, attach=True, classes=["Book", "Book", "ChannelsBook"], **opts)
    specs = [sp for p, sp in gen.leaves(root)]
    transports = ["pickle", "live"] + (["json", "json"] if json_ok else ["pickle2"])
    tasks = []
    many = rng.random() < 0.04
    for i in range(rng.randint(16, 40) if many else rng.choice([1, 2, 2, 3, 3, 4, 5, 7])):
        nb = rng.choice([0, 1, 1, 1, 2, 3])
        drop = rng.choice([0, 0, 0, 1, 2])
        batches = [{"rows": gen.rows(rng, rng.choice([0, 1, 2, 3]) if many else gen.batchsize(rng)), "form": gen.form(rng, *specs)} for b in range(nb)]
        for b in batches:
            if drop and b["form"]["form"] == "scalars":
                b["form"]["form"] = "dict"      # the histograms that are left may read only what is delivered as numbers
        tasks.append({"batches": batches, "transport": rng.choice(transports), "template": rng.choice(["build", "copy", "cleared", "pickle", "copyonfill"]), "drop": drop})
    return {"root": root, "tasks": tasks, "json": json_ok, "loss": rng.choice([0, 0, 0.2, 0.4]), "dup": rng.choice([0, 0.2, 0.5]), "crash": rng.choice([0, 0, 0.3]), "sched": rng.randint(0, 2**40), "scale": rng.choice([2, 0.5, -1, 3, 4.0, 0.25, 0, 1, 1.0, 0.0, -0.5, "npint", "npfloat"]), "more": {"rows": gen.rows(rng, 5), "form": gen.form(rng, *specs)}}

def encode(x, transport):
    if transport == "live":
        return x
    if transport == "json":
        return json.dumps(x.tojson())
    return pickle.dumps(x, 2 if transport == "pickle2" else pickle.HIGHEST_PROTOCOL)

def decode(x, transport):
    if transport == "live":
        return x
    if transport == "json":
        x = json.loads(x)
        return histbook.Hist.fromjson(x) if x["type"] == "Hist" else histbook.book.GenericBook.fromjson(x)
    return pickle.loads(x)

def make(template, how, root):
    if how == "build":
        return build.tree(root)
    if how == "pickle":
        return pickle.loads(pickle.dumps(template))
    return getattr(template, how)()

def fill(x, batch):
    """Fill a histogram or any kind of book."""
    if isinstance(x, (histbook.Hist, histbook.Book)):
        args, kwargs, cols = build.deliver(batch["rows"], batch["fields"], batch["form"])
        x.fill(*args, **kwargs)
    else:
        for y in x.values():
            fill(y, dict(batch, form=gen.PLAIN_FORM))    # a single histogram may not read the field that says how many rows there are

def reduced(x, drop, rng):
    """A worker that was only asked for some of the histograms."""
    for i in range(drop):
        paths = [p for p, h in build.hists(x)]
        paths = [p for p in paths if p and not p.rsplit("/", 1)[-1].startswith("s")]
        if len(paths) > 1:
            del x[rng.choice(paths)]

def execute(plan, ctx):
    root = plan["root"]
    fields = gen.treefields(root)
    for t in plan["tasks"]:
        for b in t["batches"]:
            b["fields"] = fields
    plan["more"]["fields"] = fields
    rng = random.Random(plan["sched"])
    ishist = "spec" in root
    template = sut("construct", build.tree, root)

    # the single pass: every histogram of the book sees the rows of the tasks that were asked for it
    reference = dict((p, build.hist(sp)) for p, sp in gen.leaves(root))
    asked = {}

    tasks = plan["tasks"]
    todo = [(i, 0) for i in range(len(tasks))]    # (task, attempt)
    network = []
    results = {}
    held = []
    kept = []       # parts and totals that were merged into others; each still stands for its own data
    merges = 0
    order = []

    def iadd(c, d):
        c += d
        return c

    def runtask(i, attempt):
        t = tasks[i]
        x = sut("template:" + t["template"], make, template, t["template"], root)
        if not ishist and t["drop"]:
            reduced(x, t["drop"], random.Random(i))
        asked[i] = [p for p, h in build.hists(x)]
        crash = attempt < 2 and len(t["batches"]) and rng.random() < plan["crash"]
        stop = rng.randrange(len(t["batches"])) if crash else None
        for b, batch in enumerate(t["batches"]):
            if b == stop:
                ctx.fault("worker crash")
                ctx.log("task", i, "crashes after", b, "batches")
                todo.append((i, attempt + 1))
                return
            sut("fill", fill, x, batch)
            ctx.step()
        msg = sut("encode:" + t["transport"], encode, x, t["transport"])
        copies = 1
        if attempt < 2 and rng.random() < plan["loss"]:
            ctx.fault("result lost")
            copies = 0
            todo.append((i, attempt + 1))
            if rng.random() < 0.3:
                copies = 1      # not lost after all: only late, and the task runs again
                ctx.fault("result late, task re-executed")
        elif rng.random() < plan["dup"]:
            ctx.fault("result duplicated")
            copies = 2
        for c in range(copies):
            network.append((i, msg, t["transport"]))
        ctx.log("task", i, "done", t["transport"], copies)

    def mergestep():
        a = held.pop(rng.randrange(len(held)))
        b = held.pop(rng.randrange(len(held)))
        how = rng.choice(["+", "+", "+=", "+="])
        what = "merge:" + how
        if rng.random() < 0.2:
            # the driver starts a new total
            empty = sut("cleared", (a if rng.random() < 0.5 else b).cleared)
            kept.append((a, obs.contents(a)))
            a = sut(what, iadd, empty, a)
            ctx.probe("merged into a new total")
        kept.append((b, obs.contents(b)))
        if how == "+":
            kept.append((a, obs.contents(a)))
            c = sut(what, lambda: a + b)
        else:
            c = sut(what, iadd, a, b)
        held.append(c)
        order.append(how)
        ctx.log("merge", how)

    guard = 0
    while todo or network or len(held) > 1:
        guard += 1
        require(guard < 500, "hang", "event loop")
        ctx.step()
        choices = (["run"] * len(todo)) + (["deliver"] * len(network)) + (["merge"] if len(held) > 1 else [])
        ev = rng.choice(choices)
        if ev == "run":
            i, attempt = todo.pop(rng.randrange(len(todo)))
            if i in results and rng.random() < 0.5:
                continue
            runtask(i, attempt)
        elif ev == "deliver":
            pos = rng.randrange(len(network))
            if pos != 0:
                ctx.fault("result reordered")
            i, msg, transport = network.pop(pos)
            if i in results:
                ctx.probe("duplicate result ignored")
                continue
            part = sut("decode:" + transport, decode, msg, transport)
            results[i] = True
            held.append(part)
            order.append(i)
            ctx.log("deliver", i, transport)
        else:
            mergestep()
            merges += 1

    total = held[0] if held else template.cleared()
    if not isinstance(total, histbook.Hist):
        require(isinstance(total, histbook.book.GenericBook), "type", type(total))
    for i, t in enumerate(tasks):
        for p in asked[i]:
            for b in t["batches"]:
                sut("reference fill", fill, reference[p], dict(b, form=gen.PLAIN_FORM))
    anyasked = set(p for i in asked for p in asked[i])
    want = dict((p, obs.content(h)) for p, h in reference.items() if p in anyasked)

    def check(kind, got, want, what):
        got = obs.contents(got)
        if set(got) != set(want):
            raise Violation(kind, "{0}: histograms {1}, expected {2}".format(what, sorted(got), sorted(want)))
        for p in want:
            obs.same(kind, got[p], want[p], what + " " + p)
        ctx.checked(len(want))

    if held:
        check("merge", total, want, "merged total")
    for x, c in kept:
        check("part", x, c, "a part after it was merged into another")

    # any of them can be merged again
    s = {"npint": numpy.int64(3), "npfloat": numpy.float64(0.5)}.get(plan["scale"], plan["scale"])
    if len(kept) > 1:
        (a, ca), (b, cb) = rng.sample(kept, 2)
        paths = sorted(set(ca) | set(cb))
        both = dict((p, obs.addcontent(ca.get(p), cb.get(p))) for p in paths)
        check("again", sut("merge:+", lambda: a + b), both, "two parts merged again")
        check("again", sut("merge:+", lambda: b + a), both, "two parts merged again, reversed")
        both = dict((p, obs.mulcontent(c, s)) for p, c in both.items())
        check("distribute", sut("scale:*", lambda: (b + a) * s), both, "(b + a)*s")
        check("distribute", sut("scale:*", lambda: b * s + s * a), both, "b*s + s*a")
        check("part", a, ca, "a part after it was merged again")
        check("part", b, cb, "a part after it was merged again")

    # scaling
    scaled = dict((p, obs.mulcontent(c, s)) for p, c in want.items())
    if held:
        check("scale", sut("scale:*", lambda: total * s), scaled, "total*s")
        check("scale", sut("scale:*", lambda: s * total), scaled, "s*total")
        check("scale-source", total, want, "total after total*s")
        check("copies", sut("merge:+", lambda: total + total), dict((p, obs.mulcontent(c, 2)) for p, c in want.items()), "total + total")
        check("copies", sut("scale:*", lambda: (total * s) + (total * s)), dict((p, obs.mulcontent(c, 2 * s)) for p, c in want.items()), "s*total + s*total")

        # neutral element
        empty = sut("cleared", total.cleared)
        check("neutral", sut("merge:+", lambda: total + empty), want, "total + empty")
        check("neutral", sut("merge:+", lambda: empty + total), want, "empty + total")
        check("neutral", sut("scale:*", lambda: empty * s), dict((p, None) for p in want), "empty*s")
        def inplace(x, f):
            f(x)
            return x
        def imul(x):
            x *= s
            return x
        check("scale", sut("scale:*=", imul, total.copy()), scaled, "total *= s")
        check("neutral", sut("scale:*=", imul, total.cleared()), dict((p, None) for p in want), "empty *= s")
        check("neutral", sut("merge:+=", iadd, total.cleared(), total), want, "empty += total")
        check("neutral", sut("merge:+=", iadd, total.copy(), empty), want, "total += empty")
        check("scale", sut("scale:*=", imul, sut("merge:+", lambda: total + empty)), scaled, "(total + empty) *= s")

    # grouping: parts stay recoverable, the label sums to the total
    if ishist:
        group(plan, ctx, root["spec"], tasks, template, want)
    elif held and root["type"] == "Book":
        groupbooks(plan, ctx, root, tasks)

    # the merged total is a working histogram
    if held:
        sut("fill after merge", fill, total, plan["more"])
        for p in anyasked:
            fill(reference[p], dict(plan["more"], form=gen.PLAIN_FORM))
        check("fill-after-merge", total, dict((p, obs.content(reference[p])) for p in anyasked), "fill after merge")

    withdata = sum(1 for t in tasks if any(len(b["rows"]) for b in t["batches"]))
    ctx.nontrivial = merges > 0 and withdata > 1
    ctx.sigs.append([[[a["kind"], a["expr"]] for p, sp in gen.leaves(root) for a in sp["axes"]], [t["transport"] for t in tasks], order])

def axiskeys(sp):
    return [a["expr"] for a in sp["axes"] if a["kind"] != "profile"]

def group(plan, ctx, sp, tasks, template, want):
    parts = {}
    for i, t in enumerate(tasks):
        h = template.cleared()
        for b in t["batches"]:
            fill(h, b)
        parts["L%d" % i] = h
    labels = sorted(parts)
    cut = len(labels) if plan["sched"] % 2 else max(1, len(labels) // 2)
    g = sut("group", histbook.Hist.group, by="source", **dict((n, parts[n]) for n in labels[:cut]))
    if cut < len(labels):
        sut("togroup", g.togroup, **dict((n, parts[n]) for n in labels[cut:]))
        ctx.probe("togroup")
    times = dict((n, 1) for n in labels)
    before = dict((n, obs.content(parts[n])) for n in labels)
    again = random.Random(plan["sched"])
    for i in range(again.choice([0, 0, 0, 1, 2])):
        # more data of sources that are in the group already (the same data again, or another source's)
        add = dict((n, again.choice(labels)) for n in again.sample(labels, again.randint(1, len(labels))))
        sut("togroup", g.togroup, **dict((n, parts[m]) for n, m in add.items()))
        for n, m in add.items():
            times[n] = (times[n], m)
        ctx.probe("togroup under an existing label")
    def expect(n, t):
        return before[n] if t == 1 else obs.addcontent(expect(n, t[0]), before[t[1]])
    got = obs.content(g) or {}
    for n in labels:
        obs.same("group", got.get("s:" + n), expect(n, times[n]), "part " + n)
        obs.same("group-source", obs.content(parts[n]), before[n], "source of part " + n)
    require(set(got) <= set("s:" + n for n in labels), "group", sorted(got))
    ctx.checked(len(labels))
    total = None
    for n in labels:
        total = obs.addcontent(total, expect(n, times[n]))
    want = {"": total}
    keys = list(template.axis)[:len(axiskeys(sp))]    # group and fixed axes come before profiles
    if len(keys) >= 1 and len(set(map(repr, keys))) == len(keys):
        total = sut("project label", g.project, *keys)
        obs.same("group-total", obs.content(total), want[""], "sum over label")
        ctx.probe("projected label")

def groupbooks(plan, ctx, root, tasks):
    parts = {}
    for i, t in enumerate(tasks[:3]):
        x = build.tree(root)
        for b in t["batches"]:
            fill(x, b)
        parts["L%d" % i] = x
    if any("Systematics" in json.dumps(root) for r in [0]):
        return
    g = sut("group", histbook.Book.group, by="source", **parts)
    for p, h in build.hists(g):
        got = obs.content(h) or {}
        for n, x in parts.items():
            obs.same("group", got.get("s:" + n), obs.content(x[p]), "part {0} of {1}".format(n, p))
            ctx.checked()
    require(sorted(p for p, h in build.hists(g)) == sorted(p for p, sp in gen.leaves(root)), "group", "paths")
    ctx.probe("grouped books")

def shrink(plan):
    from sim.shrink import chunks, patched
    for c in chunks(plan["tasks"]):
        if c:
            yield patched(plan, tasks=c)
    for k in ("loss", "dup", "crash"):
        if plan[k]:
            yield patched(plan, **{k: 0})
    for t in gen.smaller_trees(plan["root"]):
        yield patched(plan, root=t)
    for i, t in enumerate(plan["tasks"]):
        for c in chunks(t["batches"]):
            yield patched(plan, tasks=plan["tasks"][:i] + [dict(t, batches=c)] + plan["tasks"][i + 1:])
        for j, b in enumerate(t["batches"]):
            for c in chunks(b["rows"]):
                yield patched(plan, tasks=plan["tasks"][:i] + [dict(t, batches=t["batches"][:j] + [dict(b, rows=c)] + t["batches"][j + 1:])] + plan["tasks"][i + 1:])
        for k, v in (("transport", "live"), ("template", "build"), ("drop", 0)):
            if t[k] != v:
                yield patched(plan, tasks=plan["tasks"][:i] + [dict(t, **{k: v})] + plan["tasks"][i + 1:])
