"""C10: a book is a consistent mapping from paths to histograms."""
import collections
import copy
import fnmatch
import pickle

from sim import env
import histbook
import histbook.book

from sim.core import sut, Violation, require

ID = "C10"
RUNS = {"quick": 20000, "thorough": 600000}
LEVEL = "exploration"
RULE = "one run = one random hierarchy of books of all kinds and a history of assignments, deletions, wildcard deletions, pops, edits through nested books' own handles, save/restore, and attempts that must be rejected; after each of them every way of reading every book is compared with a path-map model; non-trivial if at least 3 edits succeeded and one was rejected; distinct by the sequence of edits"
COMPONENTS = {"real": ["histbook.book", "histbook.hist (compatibility, attachments)"], "simulated": ["clients editing through paths and handles, rejected edits"], "stub": []}
ASSUMPTIONS = ["paths have non-empty components; a book is never stored inside itself", "books inside a SystematicsBook are edited through paths from outside (a nested book does not know the rules of the book that holds it)", "a wildcard deletion that matches nothing may raise KeyError or do nothing"]

NAMES = ["a", "b", "c", "aa", "ab", "h1", "h2", "x y", "sub", "S", "a.b", "é"]
PATTERNS = ["*", "a*", "*b", "?", "a?", "*/a", "*/*", "sub/*", "[ab]", "[ab]*", "*/[ac]", "h?", "*[!a]", "S/*", "nothing*", "*/h?", "a*/*", "?/?/?", "*/a/*"]
SHAPES = 3

def path(rng, deep=5):
    n = rng.choice([1, 1, 1, 2, 2, 3] * 5 + [4, 5]) if deep > 1 else 1
    return "/".join(rng.choice(NAMES[:7] if rng.random() < 0.7 else NAMES) for i in range(min(n, deep)))

def node(rng, depth):
    r = rng.random()
    if depth == 0 or r < 0.55:
        return hist(rng)
    cls = rng.choice(["Book", "Book", "GenericBook", "ChannelsBook", "SystematicsBook", "SamplesBook"])
    if cls == "SystematicsBook":
        shape = rng.randint(0, SHAPES - 1)
        if rng.random() < 0.6:
            return {"type": cls, "items": [[n, {"shape": shape, "syst": i}] for i, n in enumerate(rng.sample(NAMES, rng.choice([0, 1, 2, 3] * 5 + [5, 8])))]}
        keys = rng.sample(NAMES, rng.randint(1, 2))
        return {"type": cls, "items": [[n, {"type": "Book", "items": [[k, {"shape": (shape + j) % SHAPES, "syst": i}] for j, k in enumerate(keys)]}] for i, n in enumerate(rng.sample(NAMES, rng.randint(1, 2)))]}
    names = rng.sample(NAMES, rng.choice([0, 1, 2, 3, 4] * 10 + [7, 12]))
    if cls == "SamplesBook":
        return {"type": cls, "samples": rng.sample(["data", "mc", "a"], rng.randint(1, 2)), "items": [[n, hist(rng)] for n in names]}
    out = {"type": cls, "items": [[n, node(rng, depth - 1)] for n in names]}
    if rng.random() < 0.3:
        out["ctor"] = rng.choice(["kw", "dict and kw", "args", "args and kw", "sets", "fromdicts"])
    return out

def hist(rng):
    return {"shape": rng.randint(0, SHAPES - 1), "syst": rng.randint(0, 3) if rng.random() < 0.5 else None}

def generate(rng, tier):
    depth = 5 if rng.random() < 0.05 else 3
    root = node(rng, depth)
    while "shape" in root or rng.random() < 0.15:
        root = node(rng, depth)
    ops = []
    for i in range(rng.choice([4, 6, 8, 12, 20])):
        r = rng.random()
        where = rng.randint(0, 99) if rng.random() < 0.3 else None      # through the handle of a nested book
        if r < 0.34:
            ops.append({"op": "set", "path": path(rng), "value": node(rng, rng.choice([0, 0, 0, 1, 2])), "where": where, "pick": rng.randint(0, 99) if rng.random() < 0.35 else None})
        elif r < 0.38:
            ops.append({"op": "store", "path": path(rng), "from": rng.randint(0, 99), "where": where})
        elif r < 0.56:
            ops.append({"op": "del", "path": path(rng), "pick": rng.randint(0, 99) if rng.random() < 0.8 else None, "where": where, "how": rng.choice(["del", "del", "pop"])})
        elif r < 0.68:
            ops.append({"op": "delwild", "pattern": rng.choice(PATTERNS), "where": where})
        elif r < 0.76:
            ops.append({"op": "badkey", "key": rng.choice([5, None, 1.5, ["a"]]), "what": rng.choice(["set", "del", "get"]), "where": where})
        elif r < 0.84:
            ops.append({"op": "badvalue", "path": path(rng), "value": rng.choice([5, None, "h", [], {}]), "where": where})
        elif r < 0.90:
            ops.append({"op": "through", "pick": rng.randint(0, 99), "more": path(rng, 2), "where": where, "what": rng.choice(["set", "del", "get"])})
        elif r < 0.94:
            ops.append({"op": "update", "items": [[path(rng), hist(rng)] for j in range(rng.randint(0, 3))], "kw": rng.random() < 0.3, "where": where})
        elif r < 0.97:
            ops.append({"op": "setdefault", "path": path(rng), "value": hist(rng), "pick": rng.randint(0, 99) if rng.random() < 0.5 else None, "where": where})
        else:
            ops.append({"op": "reload", "how": rng.choice(["pickle", "json", "copy", "deepcopy", "copyonfill", "cleared"])})
    return {"root": root, "ops": ops, "asks": [rng.choice(PATTERNS) for i in range(2)] + [path(rng) for i in range(2)]}

# ---------------------------------------------------------------- the model: nested ordered dicts with references to the real objects

class MHist(object):
    def __init__(self, shape, syst, real):
        self.shape, self.syst, self.real = shape, syst, real

class MBook(object):
    def __init__(self, cls, real):
        self.cls, self.real, self.items = cls, real, collections.OrderedDict()
    def walk(self, prefix=None):
        for n, x in self.items.items():
            p = n if prefix is None else prefix + "/" + n
            yield p, x
            if isinstance(x, MBook):
                for y in x.walk(p):
                    yield y
    def find(self, p):
        x = self
        for n in p.split("/"):
            if not isinstance(x, MBook) or n not in x.items:
                return None
            x = x.items[n]
        return x
    def clone(self):
        """Same references, own structure (books shared by several paths stay shared)."""
        memo = {}
        def rec(b):
            if id(b) in memo:
                return memo[id(b)]
            out = memo[id(b)] = MBook(b.cls, b.real)
            for n, x in b.items.items():
                out.items[n] = rec(x) if isinstance(x, MBook) else x
            return out
        return rec(self), memo

def compatible(x, y):
    if isinstance(x, MHist) and isinstance(y, MHist):
        return x.shape == y.shape
    if isinstance(x, MBook) and isinstance(y, MBook):
        return x.cls == y.cls and set(x.items) == set(y.items) and all(compatible(x.items[n], y.items[n]) for n in x.items)
    return False

def valid(b):
    """Does every systematics book keep its rules?"""
    if not isinstance(b, MBook):
        return True
    if b.cls == "SystematicsBook":
        xs = list(b.items.values())
        if not all(compatible(x, y) for x, y in zip(xs[:-1], xs[1:])):
            return False
        if not all(x.syst is not None for p, x in b.walk() if isinstance(x, MHist)):
            return False
    return all(valid(x) for x in b.items.values())

def insyst(b, target, inside=False):
    """Is the book somewhere inside a systematics book?"""
    for x in b.items.values():
        if isinstance(x, MBook):
            if (x is target and (inside or b.cls == "SystematicsBook")) or insyst(x, target, inside or b.cls == "SystematicsBook"):
                return True
    return False

def contains(b, target):
    return b is target or (isinstance(b, MBook) and any(contains(x, target) for x in b.items.values()))

def makehist(n):
    kw = {}
    if n["syst"] is not None:
        kw["systematic"] = [n["syst"]]
    axes = [[histbook.bin("x", 3, 0, 1)], [histbook.bin("x", 4, 0, 1)], [histbook.groupby("g"), histbook.intbin("n", 0, 3)]][n["shape"]]
    return MHist(n["shape"], n["syst"], histbook.Hist(*axes, **kw))

CLS = {"Book": histbook.Book, "GenericBook": histbook.book.GenericBook, "ChannelsBook": histbook.ChannelsBook, "SystematicsBook": histbook.SystematicsBook}

def make(n, how=0):
    if "shape" in n:
        return makehist(n)
    subs = [(k, make(x)) for k, x in n["items"]]
    if n["type"] == "SamplesBook":
        real = histbook.SamplesBook(n["samples"], collections.OrderedDict((k, x.real) for k, x in subs))
        out = MBook("SamplesBook", real)
        for s in n["samples"]:
            b = out.items[s] = MBook("Book", real[s])
            for k, x in subs:
                b.items[k] = MHist(x.shape, x.syst, real[s + "/" + k])
        return out
    out = MBook(n["type"], None)
    cls, ctor, half = CLS[n["type"]], n.get("ctor"), (len(subs) + 1) // 2
    reals = lambda xs: collections.OrderedDict((k, x.real) for k, x in xs)
    if ctor in ("args", "args and kw") and subs:
        if ctor == "args":
            half = len(subs)
        subs = [(str(i), x) for i, (k, x) in enumerate(subs[:half])] + subs[half:]
        out.real = sut("construct", cls, *[x.real for k, x in subs[:half]], **reals(subs[half:]))
    elif ctor == "kw":
        out.real = sut("construct", cls, **reals(subs))
    elif ctor == "dict and kw":
        out.real = sut("construct", cls, reals(subs[:half]), **reals(subs[half:]))
    elif ctor == "sets":
        out.real = cls()
        for k, x in subs:
            sut("set", out.real.__setitem__, k, x.real)
    elif ctor == "fromdicts":
        out.real = sut("construct", cls.fromdicts, reals(subs), {})
    else:
        out.real = cls(reals(subs))
    out.items.update(subs)
    return out

# ---------------------------------------------------------------- reading

def ident(x):
    return id(x)

def check(ctx, m, real, asks):
    """Every way of reading one book agrees with the model."""
    def same(what, got, want):
        ctx.checked()
        if got != want:
            raise Violation("reading:" + what, "{0} vs {1}".format(str(got)[:300], str(want)[:300]))
    flat = [(n, x) for n, x in m.items.items()]
    deep = list(m.walk())
    hf = [(n, x) for n, x in flat if isinstance(x, MHist)]
    hd = [(n, x) for n, x in deep if isinstance(x, MHist)]
    names = lambda xs: [n for n, x in xs]
    reals = lambda xs: [ident(x.real) for n, x in xs]
    def lists(what, want, items, keys, values):
        same(what + " keys", list(keys), names(want))
        same(what + " values", [ident(x) for x in values], reals(want))
        same(what + " items", [(n, ident(x)) for n, x in items], list(zip(names(want), reals(want))))
    lists("flat", flat, real.items(), real.keys(), real.values())
    lists("flat histograms", hf, real.items(onlyhist=True), real.keys(onlyhist=True), real.values(onlyhist=True))
    lists("recursive", deep, real.items(recursive=True), real.keys(recursive=True), real.values(recursive=True))
    lists("all histograms", hd, real.items(recursive=True, onlyhist=True), real.keys(recursive=True, onlyhist=True), real.values(recursive=True, onlyhist=True))
    lists("iterators", deep, real.iteritems(recursive=True), real.iterkeys(recursive=True), real.itervalues(recursive=True))
    lists("flat iterators", hf, real.iteritems(onlyhist=True), real.iterkeys(onlyhist=True), real.itervalues(onlyhist=True))
    lists("allitems", deep, real.allitems(), real.allkeys(), real.allvalues())
    lists("allitems of histograms", hd, real.allitems(onlyhist=True), real.allkeys(onlyhist=True), real.allvalues(onlyhist=True))
    same("iteration", [(n, ident(x)) for n, x in real], list(zip(names(hd), reals(hd))))
    same("length", len(real), len(flat))
    for n, x in deep:
        got = sut("look-up", real.__getitem__, n)
        same("look-up " + n, ident(got), ident(x.real))
        same("membership " + n, n in real, True)
    for a in asks:
        if any(c in a for c in "*?["):
            want = [(n, x) for n, x in deep if fnmatch.fnmatchcase(n, a)]
            got = sut("wildcard look-up", real.__getitem__, a)
            require(isinstance(got, list), "reading:wildcard", type(got))
            same("wildcard " + a, [ident(x) for x in got], reals(want))
            if hasattr(real, "view"):
                hw = [(n, x) for n, x in hd if fnmatch.fnmatchcase(n, a)]
                try:
                    v = real.view(a)
                except ValueError:
                    same("view " + a, [], names(hw))
                else:
                    same("view " + a, [(n, ident(x)) for n, x in v.items(recursive=True, onlyhist=True)], list(zip(names(hw), reals(hw))))
        else:
            x = m.find(a)
            same("membership " + a, a in real, x is not None)
            try:
                got = real[a]
            except KeyError:
                same("look-up " + a, None, x)
            else:
                same("look-up " + a, ident(got), ident(x.real) if x is not None else None)

def checkall(ctx, m, asks):
    check(ctx, m, m.real, asks)
    seen = set([id(m)])
    for p, x in m.walk():
        if isinstance(x, MBook) and id(x) not in seen:
            seen.add(id(x))
            check(ctx, x, x.real, asks[:1])
        elif isinstance(x, MBook):
            ctx.probe("book at two paths")

# ---------------------------------------------------------------- editing the model

def mset(m, p, value):
    """False if the path leads through a histogram."""
    parts = p.split("/")
    for n in parts[:-1]:
        nxt = m.items.get(n)
        if nxt is None:
            nxt = m.items[n] = MBook("Book", None)
        if not isinstance(nxt, MBook):
            return False
        m = nxt
    m.items[parts[-1]] = value
    return True

def mdel(m, p):
    parts = p.split("/")
    for n in parts[:-1]:
        m = m.items.get(n)
        if not isinstance(m, MBook):
            return False
    if parts[-1] not in m.items:
        return False
    del m.items[parts[-1]]
    return True

def bind(m, real, ctx):
    """Find the real objects of books the library created itself."""
    for n, x in m.items.items():
        if isinstance(x, MBook) and x.real is None:
            got = sut("look-up", real.__getitem__, n)
            require(type(got) is histbook.Book, "created-book", "an intermediate book is a {0}".format(type(got).__name__))
            x.real = got
        if isinstance(x, MBook):
            bind(x, x.real, ctx)

def rebind(m, real):
    """Model of a restored copy."""
    memo = {}
    out = MBook(m.cls, real)
    require(type(real).__name__ == m.cls, "reload", "{0} vs {1}".format(type(real).__name__, m.cls))
    require(real.keys() == list(m.items), "reload", lambda: "{0} vs {1}".format(real.keys(), list(m.items)))
    for n, x in m.items.items():
        if isinstance(x, MBook):
            out.items[n] = rebind(x, real[n])
        else:
            h = real[n]
            require(isinstance(h, histbook.Hist) and h.has("systematic") == (x.syst is not None), "reload", n)
            out.items[n] = MHist(x.shape, x.syst, h)
    return out

def execute(plan, ctx):
    m = make(plan["root"])
    asks = plan["asks"]
    checkall(ctx, m, asks)
    good = rejected = 0
    sig = []
    for op in plan["ops"]:
        ctx.step()
        kind = op["op"]
        # the book the edit goes through
        target = m
        if op.get("where") is not None:
            books = [x for p, x in m.walk() if isinstance(x, MBook) and not insyst(m, x)]
            if books:
                target = books[op["where"] % len(books)]
                ctx.probe("through a handle")
        if kind == "reload":
            real = m.real
            how = op["how"]
            if how == "pickle":
                real = sut("pickle", lambda: pickle.loads(pickle.dumps(real)))
            elif how == "json":
                real = sut("json", lambda: histbook.book.GenericBook.fromjson(real.tojson()))
            elif how == "deepcopy":
                real = sut("deepcopy", copy.deepcopy, real)
            else:
                real = sut(how, getattr(real, how))
            checkall(ctx, m, asks)
            if how in ("pickle", "deepcopy"):
                # what was one object stays one object
                m = rebind(m, real) if len(set(id(x) for p, x in m.walk())) == len(list(m.walk())) else rebind_shared(m, real)
            else:
                m = rebind(m, real)
            checkall(ctx, m, asks)
            ctx.log("reload", how)
            continue
        existing = [p for p, x in target.walk()]
        p = op.get("path")
        if op.get("pick") is not None and existing and kind != "through":
            p = existing[op["pick"] % len(existing)]
        new, memo = m.clone()
        ntarget = memo[id(target)]
        must = may = None       # must: the edit must work / fail; may: both are fine
        call = None
        if kind == "set":
            value = make(op["value"])
            ok = mset(ntarget, p, value)
            call = lambda: target.real.__setitem__(p, value.real)
            must = ok and valid(new)
        elif kind == "store":
            have = [x for q, x in m.walk() if isinstance(x, MHist) or not contains(x, target)]
            have = [x for x in have if isinstance(x, MHist) or not insyst(m, x)]
            # a book held by a systematics book and also elsewhere could be edited behind its back
            have = [x for x in have if isinstance(x, MHist) or (target.cls != "SystematicsBook" and not insyst(m, target))]
            if not have:
                continue
            value = have[op["from"] % len(have)]
            dest = target
            for n in p.split("/")[:-1]:
                dest = dest.items.get(n) if isinstance(dest, MBook) else None
            if isinstance(value, MBook) and (any(contains(value, x) for x in along(target, p)) or any(isinstance(x, MBook) and (x.cls == "SystematicsBook" or insyst(m, x)) for x in along(target, p))):
                continue
            ok = mset(ntarget, p, memo.get(id(value), value))
            call = lambda: target.real.__setitem__(p, value.real)
            must = ok and valid(new)
        elif kind == "del":
            ok = mdel(ntarget, p)
            if op["how"] == "pop":
                call = lambda: target.real.pop(p)
            else:
                call = lambda: target.real.__delitem__(p)
            must = ok and valid(new)
        elif kind == "delwild":
            hits = [q for q, x in target.walk() if fnmatch.fnmatchcase(q, op["pattern"])]
            for q in hits:
                if ntarget.find(q) is not None:
                    mdel(ntarget, q)
            call = lambda: target.real.__delitem__(op["pattern"])
            if not hits:
                may = True
            elif not valid(new):
                must = False
            else:
                must = True
                if any(insyst(m, x) or x.cls == "SystematicsBook" for x in [target] + [x for q, x in target.walk() if isinstance(x, MBook)]):
                    may = True      # may be rejected because a step on the way breaks the rules
            ctx.probe("wildcard deletions of {0}".format("several" if len(hits) > 1 else "one" if hits else "none"))
        elif kind == "badkey":
            key = op["key"]
            what = op["what"]
            h = makehist({"shape": 0, "syst": 0})
            call = {"set": lambda: target.real.__setitem__(key, h.real), "del": lambda: target.real.__delitem__(key), "get": lambda: target.real[key]}[what]
            must = False
        elif kind == "badvalue":
            call = lambda: target.real.__setitem__(p, op["value"])
            must = False
        elif kind == "through":
            hs = [q for q, x in target.walk() if isinstance(x, MHist)]
            if not hs:
                continue
            p = hs[op["pick"] % len(hs)] + "/" + op["more"]
            h = makehist({"shape": 0, "syst": 0})
            call = {"set": lambda: target.real.__setitem__(p, h.real), "del": lambda: target.real.__delitem__(p), "get": lambda: target.real[p]}[op["what"]]
            must = False
        elif kind == "update":
            items = collections.OrderedDict((q, makehist(v)) for q, v in op["items"])
            ok = True
            for q, v in items.items():
                ok = ok and mset(ntarget, q, v) and valid(new)
            if not ok:
                continue        # not one edit but several
            call = lambda: target.real.update(**dict((q, v.real) for q, v in items.items())) if op["kw"] else target.real.update(collections.OrderedDict((q, v.real) for q, v in items.items()))
            must = True
        elif kind == "setdefault":
            value = makehist(op["value"])
            if target.find(p) is not None:
                ok = True
            else:
                ok = mset(ntarget, p, value)
            call = lambda: target.real.setdefault(p, value.real)
            must = ok and valid(new)
        try:
            result = call()
            raised = None
        except Exception as err:
            raised = err
        ctx.log(kind, p if p is not None else op.get("pattern", ""), "->", "ok" if raised is None else type(raised).__name__ + ": " + str(raised)[:80])
        sig.append([kind, p, raised is None])
        if raised is None:
            if may is None and not must:
                raise Violation("accepted", "{0} {1} was not rejected".format(kind, p))
            if kind == "del" and op["how"] == "pop":
                require(result is target.find(p).real, "pop", p)
            if kind == "setdefault":
                require(result is ntarget.find(p).real, "setdefault", p)
            m = new
            bind(m, m.real, ctx)
            good += 1
            if kind == "set" and m is not target:
                ctx.probe("deep set" if "/" in p else "set")
        else:
            if may is None and must:
                import traceback
                tb = traceback.extract_tb(raised.__traceback__)
                raise Violation("rejected:" + kind, "{0}: {1!r} [{2}]".format(p, raised, "; ".join("{0}:{1} {2}".format(f.filename.rsplit("/", 1)[-1], f.lineno, f.name) for f in tb[-4:])))
            if not isinstance(raised, (KeyError, TypeError, ValueError)):
                raise Violation("wrong-exception", "{0} {1}: {2!r}".format(kind, p, raised))
            rejected += 1
            ctx.fault("rejected " + kind + (" (systematics rules)" if isinstance(raised, ValueError) else ""))
        checkall(ctx, m, asks)
    ctx.nontrivial = good >= 3 and rejected >= 1
    ctx.sigs.append([plan["root"], sig])

def along(b, p):
    """Books on a path."""
    out = [b]
    for n in p.split("/"):
        b = b.items.get(n) if isinstance(b, MBook) else None
        if b is None:
            break
        out.append(b)
    return out

def rebind_shared(m, real):
    memo = {}
    def rec(b, r):
        if id(b) in memo:
            require(memo[id(b)].real is r, "reload", "an object stored at two paths was divided")
            return memo[id(b)]
        if isinstance(b, MHist):
            require(isinstance(r, histbook.Hist) and r.has("systematic") == (b.syst is not None), "reload", "")
            out = memo[id(b)] = MHist(b.shape, b.syst, r)
            return out
        require(type(r).__name__ == b.cls and r.keys() == list(b.items), "reload", lambda: "{0} vs {1}".format(r.keys(), list(b.items)))
        out = memo[id(b)] = MBook(b.cls, r)
        for n, x in b.items.items():
            out.items[n] = rec(x, r[n])
        return out
    return rec(m, real)

def shrink(plan):
    from sim.shrink import chunks, patched
    for c in chunks(plan["ops"]):
        yield patched(plan, ops=c)
    def smaller(n):
        if "shape" in n:
            return
        for i in range(len(n["items"])):
            yield dict(n, items=n["items"][:i] + n["items"][i + 1:])
            for s in smaller(n["items"][i][1]):
                yield dict(n, items=n["items"][:i] + [[n["items"][i][0], s]] + n["items"][i + 1:])
    for s in smaller(plan["root"]):
        yield patched(plan, root=s)
    for i in range(len(plan["asks"])):
        yield patched(plan, asks=plan["asks"][:i] + plan["asks"][i + 1:])
    for i, op in enumerate(plan["ops"]):
        if op.get("where") is not None:
            yield patched(plan, ops=plan["ops"][:i] + [dict(op, where=None)] + plan["ops"][i + 1:])
