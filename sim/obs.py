"""Observation of histograms and books through their public interface only."""
import math
from fractions import Fraction

from sim import env
import numpy
import histbook
import histbook.axis
import histbook.book

from sim.core import Violation, HarnessError, require

def key(k):
    """A category label, independent of the concrete number or string type."""
    if isinstance(k, (str, bytes)):
        return "s:" + str(k)
    if isinstance(k, tuple):
        return "t:" + repr(k)
    k = float(k)
    if k != k:
        return "n:nan"
    return "n:" + repr(k + 0.0 if k != 0 else 0.0)

def _zero(c):
    if isinstance(c, list):
        return all(_zero(x) for x in c)
    return c == 0

def _content(c):
    if c is None:
        return None
    if isinstance(c, dict):
        out = {}
        for n, x in c.items():
            x = _content(x)
            if x is not None:
                k = key(n)
                if k in out:
                    raise Violation("duplicate-category", k)
                out[k] = x
        return out or None
    if _zero(c):
        return None
    return c

def content(h):
    """Non-zero content: None (all zero), nested lists, or dict of categories.

    Never-filled, zero-filled and never-seen categories are the same observation."""
    return _content(h.tojson().get("content"))

def meta(h):
    """Everything a histogram reports about itself but its bins."""
    j = h.tojson()
    return {"axis": j["axis"], "weight": j.get("weight"), "filter": j.get("filter"), "defs": dict((n, str(x)) for n, x in j.get("defs", {}).items()), "attachment": _plain(j.get("attachment", {})), "repr": repr(h), "shape": list(h.shape), "fields": list(h.fields)}

def _plain(x):
    if isinstance(x, dict):
        return dict((str(n), _plain(y)) for n, y in x.items())
    if isinstance(x, (list, tuple)):
        return [_plain(y) for y in x]
    return x

def isbook(x):
    return isinstance(x, histbook.book.GenericBook)

def snap(x):
    """Full snapshot (content and metadata) of a histogram or book."""
    if isbook(x):
        return {"type": type(x).__name__, "attachment": _plain(dict(x.attachment)), "items": [[n, snap(y)] for n, y in x.items()]}
    return {"meta": _plain(meta(x)), "content": content(x)}

def contents(x):
    """Contents only, path -> content, of a histogram or book."""
    if isbook(x):
        return dict((n, content(y)) for n, y in x.items(recursive=True, onlyhist=True))
    return {"": content(x)}

def eq(a, b):
    """Exact equality of nested observations; NaN equals NaN."""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(eq(a[n], b[n]) for n in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return a == b

def diff(a, b, path=""):
    """First difference, for messages."""
    if isinstance(a, dict) and isinstance(b, dict):
        for n in list(a) + [m for m in b if m not in a]:
            if n not in a or n not in b:
                return "{0}/{1}: {2} vs {3}".format(path, n, str(a.get(n, "<absent>"))[:200], str(b.get(n, "<absent>"))[:200])
            d = diff(a[n], b[n], path + "/" + str(n))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path + "/" + str(i))
            if d:
                return d
        return None
    return None if eq(a, b) else "{0}: {1} vs {2}".format(path, str(a)[:200], str(b)[:200])

def same(kind, got, want, what=""):
    if not eq(got, want):
        raise Violation(kind, "{0} got vs expected at {1}".format(what, diff(got, want)))

def addcontent(a, b):
    """Exact sum of two contents."""
    if a is None:
        return b
    if b is None:
        return a
    if isinstance(a, dict):
        out = dict(a)
        for n, x in b.items():
            out[n] = addcontent(out[n], x) if n in out else x
        return _clean(out)
    if isinstance(a, list):
        out = addlists(a, b)
        return None if _zero(out) else out
    return a + b

def _clean(d):
    d = dict((n, x) for n, x in d.items() if x is not None)
    return d or None

def mulcontent(a, v):
    if a is None or v == 0:
        return None
    if isinstance(a, dict):
        return _clean(dict((n, mulcontent(x, v)) for n, x in a.items()))
    return [mullist(x, v) for x in a]

def mullist(a, v):
    return [mullist(x, v) for x in a] if isinstance(a, list) else a * v

def addlists(a, b):
    return [addlists(x, y) for x, y in zip(a, b)] if isinstance(a, list) else a + b

# ---------------------------------------------------------------- comparison with the model, by table()

def _tables(t, ngroup):
    """(keys, array) pairs of a table of a histogram with ngroup group axes."""
    if ngroup == 0:
        yield (), t
        return
    for n, x in t.items():
        for ks, y in _tables(x, ngroup - 1):
            yield (n,) + ks, y

def close(a, b, tol):
    return a == b or abs(a - b) <= tol

def versus_model(h, m, ctx):
    """Compare everything a histogram reports in table() with the reference model."""
    ng, nf = len(m.group), len(m.fixed)
    profs = [p["expr"] for p in m.profile]
    t = h.table(*profs, recarray=False, effcount=True)
    require(ng == 0 or isinstance(t, dict), "table-structure", type(t))
    seen = {}
    for ks, arr in _tables(t, ng):
        nk = tuple(key(k) for k in ks)
        if nk in seen:
            raise Violation("duplicate-category", nk)
        seen[nk] = arr
    want = {}
    for where, b in m.bins.items():
        want.setdefault(tuple(key(k) for k in where[:ng]), {})[where[ng:]] = b
    allowed = set(tuple(key(k) for k in ks) for ks in m.seenkeys)
    for nk in want:
        if nk not in seen:
            if any(b[0] != 0 or b[1] != 0 for b in want[nk].values()):
                raise Violation("missing-category", "{0}; have {1}".format(nk, sorted(seen)))
    for nk, arr in seen.items():
        bins = want.get(nk, {})
        arr = numpy.asarray(arr)
        flat = arr.reshape((-1, arr.shape[-1])) if nf else arr.reshape((1, -1))
        shape = arr.shape[:-1]
        from sim.gen import totbins
        require(tuple(shape) == tuple(totbins(a) for a in m.fixed), "table-shape", lambda: "{0} vs {1}".format(shape, [totbins(a) for a in m.fixed]))
        expected = {}
        for where, b in bins.items():
            i = 0
            for s, w in zip(shape, where):
                i = i * s + w
            expected[i] = b
        counts = flat[:, 0]
        busy = set(numpy.nonzero((counts != 0) | (flat[:, 1] != 0))[0].tolist())
        busy.update(expected)
        for i in sorted(busy):
            row = flat[i]
            b = expected.get(i)
            if b is None:
                if row[0] != 0 or row[1] != 0:
                    raise Violation("content", "category {0} flat bin {1} shape {2}: reported {3}, expected empty".format(nk, i, shape, row.tolist()))
                continue
            ctx.checked()
            if row[0] != float(b[0]):
                raise Violation("content", "category {0} flat bin {1} shape {2}: count {3}, expected {4}".format(nk, i, shape, row[0], float(b[0])))
            var = b[1] if m.weighted else b[0]
            if not close(row[1] * row[1], float(var), 1e-9 * abs(float(var))):
                raise Violation("content", "category {0} flat bin {1}: err(count)^2 {2}, expected {3}".format(nk, i, row[1] ** 2, float(var)))
            if b[0] > 0 and var > 0:
                eff = b[0] * b[0] / var
                if not close(row[2], float(eff), 1e-9 * abs(float(eff))):
                    raise Violation("content", "category {0} flat bin {1}: effcount {2}, expected {3}".format(nk, i, row[2], float(eff)))
                for j in range(len(profs)):
                    mean = b[2 + j][0] / b[0]
                    ms = b[2 + j][1] / b[0]
                    got, goterr = row[3 + 2 * j], row[4 + 2 * j]
                    if not close(got, float(mean), 1e-9 * (1 + abs(float(mean)))):
                        raise Violation("profile", "category {0} flat bin {1} profile {2}: mean {3}, expected {4}".format(nk, i, profs[j], got, float(mean)))
                    v = (ms - mean * mean) / eff
                    scale = 1e-9 * (1 + abs(float(ms)) + float(mean * mean)) / float(eff)
                    if v >= 0 and goterr == goterr and not close(goterr * goterr, float(v), scale):
                        raise Violation("profile", "category {0} flat bin {1} profile {2}: err^2 {3}, expected {4}".format(nk, i, profs[j], goterr ** 2, float(v)))
                    if goterr != goterr and float(v) > scale:
                        raise Violation("profile", "category {0} flat bin {1} profile {2}: err is NaN, expected^2 {3}".format(nk, i, profs[j], float(v)))
        # a category can only exist because some row had it
        if nk not in allowed and nk not in want and bool((counts != 0).any()):
            raise Violation("content", "unexpected category {0}".format(nk))
    # the documented list of categories of each group axis
    for i, a in enumerate(m.group):
        have = set(key(k) for k in h.groupkeys(h.axis[i]))
        need = set(nk[i] for nk, bins in want.items() if any(b[0] != 0 or b[1] != 0 for b in bins.values()))
        require(need <= have, "groupkeys", lambda: "{0} vs {1}".format(sorted(have), sorted(need)))

def norm_table(t):
    """table() output as nested lists with canonical category labels."""
    if isinstance(t, dict):
        return dict((key(k), norm_table(x)) for k, x in t.items())
    return numpy.asarray(t).tolist()

# ---------------------------------------------------------------- labels of the bins and other ways of reading them

def _interval(x):
    if isinstance(x, histbook.axis.IntervalNaN):
        return "NaN"
    if isinstance(x, histbook.axis.Interval):
        return [float(x.low), float(x.high), bool(x.closedlow), bool(x.closedhigh)]
    return key(x)

def _edges(edges, a):
    inf = float("inf")
    out = [[-inf, edges[0], True, not a["closedlow"]]] if a["underflow"] else []
    out += [[lo, hi, a["closedlow"], not a["closedlow"]] for lo, hi in zip(edges[:-1], edges[1:])]
    out += [[edges[-1], inf, a["closedlow"], True]] if a["overflow"] else []
    return out + (["NaN"] if a["nanflow"] else [])

def _wanted(a):
    inf = float("inf")
    if a["kind"] == "bin":
        n = a["numbins"]
        return _edges([a["low"] + (a["high"] - a["low"]) * i / n for i in range(n + 1)] if n else [a["low"]], a)
    if a["kind"] == "split":
        return _edges([float(e) for e in a["edges"]], a)
    if a["kind"] == "intbin":
        return ([[-inf, float(a["min"]), True, False]] if a["underflow"] else []) + [key(i) for i in range(a["min"], a["max"] + 1)] + ([[float(a["max"]), inf, False, True]] if a["overflow"] else [])
    return [key(False), key(True)]

def _samelabel(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return a[2:] == b[2:] and all(close(x, y, 1e-9 * (1 + abs(y))) for x, y in zip(a[:2], b[:2]))
    return a == b

def labels(h, m):
    """The labels an axis gives its bins are the documented edges and the categories of the content."""
    axes = h.axis
    ng = len(m.group)
    for i, a in enumerate(m.fixed):
        if a["kind"] == "bin" and a["numbins"] > 1000:
            continue
        got, want = [_interval(x) for x in axes[ng + i].keys()], _wanted(a)
        require(len(got) == len(want) and all(_samelabel(x, y) for x, y in zip(got, want)), "labels", lambda: "{0}: {1} vs {2}".format(a, got, want))
    c = h[()]
    path = ()
    for i, a in enumerate(m.group):
        if len(c) == 0:
            break
        have = [key(k) for k in c]
        got = [_interval(x) for x in axes[i].keys(c)]
        pairs = [(_interval(k), x) for k, x in axes[i].items(c)]
        if a["kind"] == "groupby":
            want = sorted(have, key=lambda k: k if k.startswith("s:") else float(k[2:]))
        else:
            w = float(a["binwidth"])
            want = [[k, k + w, a["closedlow"], not a["closedlow"]] for k in sorted(float(k[2:]) for k in have if k != "s:NaN")] + (["NaN"] if "s:NaN" in have else [])
        require(got == want and [k for k, x in pairs] == want, "labels", lambda: "{0}: {1} vs {2}".format(a, got, want))
        k = list(c)[0]
        path += (k,)
        require(h[path] is c[k] or eq(_content(_lists(h[path])), _content(_lists(c[k]))), "indexing", path)
        c = c[k]

def _lists(c):
    return dict((n, _lists(x)) for n, x in c.items()) if isinstance(c, dict) else c.tolist()

def tablevariant(h, m, v):
    """table() with other options says the same as the full table."""
    ng = len(m.group)
    profs = [p["expr"] for p in m.profile]
    full = dict((tuple(key(k) for k in ks), numpy.asarray(arr)) for ks, arr in _tables(h.table(*profs, recarray=False, effcount=True), ng))
    pick = [i % len(profs) for i in v["profiles"]] if profs else []
    pick = [i for n, i in enumerate(pick) if i not in pick[:n] and profs.index(profs[i]) == i and profs.count(profs[i]) == 1]
    offset = len(m.group) + len(m.fixed)
    named = [str(h.axis[offset + i].expr) for i in pick]
    pick = [i for n, i in enumerate(pick) if named[n] not in named[:n]]     # the same profile twice has no separate names
    if not v["count"] and not v["effcount"] and not pick:
        return
    if not v["spell"]:
        # a name stands for the first profile that is algebraically the same
        pick = [i for i in pick if str(h.axis.profile(profs[i]).expr) == str(h.axis[offset + i].expr)]
        if not v["count"] and not v["effcount"] and not pick:
            return
    args = [h.axis[offset + i] if v["spell"] else profs[i] for i in pick]
    t, columns = h.table(*args, count=v["count"], error=v["error"], effcount=v["effcount"], recarray=v["recarray"], columns=True)
    want = []
    if v["count"]:
        want += [0] + ([1] if v["error"] else [])
    if v["effcount"]:
        want += [2]
    for i in pick:
        want += [3 + 2*i] + ([4 + 2*i] if v["error"] else [])
    require(len(columns) == len(want), "table-columns", lambda: "{0} for {1}".format(columns, v))
    seen = set()
    for ks, arr in _tables(t, ng):
        nk = tuple(key(k) for k in ks)
        require(nk in full and nk not in seen, "table-variant", lambda: "category {0}".format(nk))
        seen.add(nk)
        for n, (c, j) in enumerate(zip(columns, want)):
            got = numpy.asarray(arr[c] if v["recarray"] else arr[..., n])
            ref = full[nk][..., j]
            same = (got == ref) | ((got != got) & (ref != ref))
            require(got.shape == ref.shape and bool(numpy.all(same)), "table-variant", lambda: "column {0} with {1}: {2} vs {3}".format(c, v, got.tolist(), ref.tolist()))
    require(seen == set(full), "table-variant", lambda: "categories {0} vs {1}".format(sorted(seen), sorted(full)))
