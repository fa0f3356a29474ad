"""Build real histbook objects from specifications; deliver data in many forms."""
import random

from sim import env
import numpy
import histbook

from sim.gen import num, COLUMNS

def axis(a):
    k = a["kind"]
    if k == "groupby":
        return histbook.groupby(a["expr"])
    if k == "groupbin":
        return histbook.groupbin(a["expr"], a["binwidth"], origin=a["origin"], nanflow=a["nanflow"], closedlow=a["closedlow"])
    if k == "bin":
        return histbook.bin(a["expr"], a["numbins"], a["low"], a["high"], underflow=a["underflow"], overflow=a["overflow"], nanflow=a["nanflow"], closedlow=a["closedlow"])
    if k == "intbin":
        return histbook.intbin(a["expr"], a["min"], a["max"], underflow=a["underflow"], overflow=a["overflow"])
    if k == "split":
        return histbook.split(a["expr"], a["edges"], underflow=a["underflow"], overflow=a["overflow"], nanflow=a["nanflow"], closedlow=a["closedlow"])
    if k == "cut":
        return histbook.cut(a["expr"])
    if k == "profile":
        return histbook.profile(a["expr"])
    raise AssertionError(k)

def hist(spec, axes=None, **more):
    kw = dict(more)
    if spec["weight"] is not None:
        kw["weight"] = spec["weight"]
    if spec["filter"] is not None:
        kw["filter"] = spec["filter"]
    if spec["defs"]:
        kw["defs"] = dict(spec["defs"])
        if spec.get("defexpr"):
            kw["defs"] = dict((n, histbook.expr.Expr.parse(x) if isinstance(x, str) else x) for n, x in kw["defs"].items())
    if spec.get("attachment"):
        import copy
        kw["attachment"] = copy.deepcopy(spec["attachment"])
    if spec.get("fluent") and "fill" not in kw:
        # weight and filter put on a histogram made without (or with others)
        later = dict((n, kw.pop(n)) for n in ("weight", "filter") if n in kw)
        if spec["fluent"] == 2:
            kw.update((n, "2*y" if n == "weight" else "y > 1") for n in later)
        out = histbook.Hist(*(axes if axes is not None else [axis(a) for a in spec["axes"]]), **kw)
        for n in sorted(later, reverse=bool(len(spec["axes"]) % 2)):
            out = getattr(out, n)(later[n])
        return out
    return histbook.Hist(*(axes if axes is not None else [axis(a) for a in spec["axes"]]), **kw)

# ---------------------------------------------------------------- delivery forms

class Lazy(object):
    """A data source with nothing but item access (as histbook documents it needs)."""
    def __init__(self, columns, on_read=None):
        self._columns = columns
        self._on_read = on_read
    def __getitem__(self, name):
        if self._on_read is not None:
            self._on_read(name)
        return self._columns[name]

class _Series(object):
    def __init__(self, values):
        self.values = values

class DataFrame(object):
    """Stands in for a pandas DataFrame (columns, item access, .values)."""
    def __init__(self, columns):
        self._columns = columns
    @property
    def columns(self):
        return list(self._columns)
    def __getitem__(self, n):
        return _Series(self._columns[n])
DataFrame.__module__ = "pandas.core.frame"

def array(name, values, dtype):
    if name == "g":
        return numpy.array(values, dtype="U4" if all(len(v) <= 4 for v in values) else None) if len(values) else numpy.empty(0, dtype="U4")
    if name == "b":
        return numpy.array(values, dtype=numpy.int8 if dtype == "int" else numpy.bool_)
    if name in ("n", "k"):
        big = any(abs(v) > 1000 for v in values)
        if dtype == "f8" and name == "n" and not big:
            return numpy.array(values, dtype=numpy.int64)
        return numpy.array(values, dtype=numpy.int64 if big else {"f8": numpy.int64, "f4": numpy.int32, "int": numpy.int16, ">f8": ">i8"}[dtype])
    vals = [num(v) for v in values]
    finite = [v for v in vals if v == v and abs(v) != float("inf")]
    if dtype == "f4" and all(abs(v) <= 1024 for v in finite):
        return numpy.array(vals, dtype=numpy.float32)
    if dtype == "int" and len(finite) == len(vals) and all(v == int(v) and abs(v) < 2**62 for v in vals):
        return numpy.array([int(v) for v in vals], dtype=numpy.int64)
    if dtype == ">f8":
        return numpy.array(vals, dtype=">f8")
    return numpy.array(vals, dtype=numpy.float64)

def columns(rows, fields, dtype="f8"):
    return dict((f, array(f, [r[f] for r in rows], dtype)) for f in fields)

def same(values):
    return len(values) > 0 and all(v == values[0] for v in values[1:])

def deliver(rows, fields, form, on_read=None):
    """Returns (args, kwargs) for a fill call and the columns handed over."""
    rng = random.Random(form["seed"])
    kind, dtype = form["form"], form["dtype"]
    cols = columns(rows, fields, dtype)
    names = list(fields)
    rng.shuffle(names)
    if kind == "lists":
        cols = dict((n, c.tolist() if n != "g" or len(c) else c) for n, c in cols.items())      # an empty list does not tell text from numbers
    elif kind == "scalars" and len(rows) > 0:
        can = [n for n in names if same([r[n] for r in rows])]
        if len(rows) > 1:
            # at least one field must say how many rows there are
            if len(can) == len(names):
                can = can[1:]
            can = [n for n in can if rng.random() < 0.8]
            if all(n in can or n in "xyzq" for n in names):
                # a field that algebra removes from its expression ("x*q/q") does not say how many rows there are
                can = [n for n in can if n not in "xyz"]
        for n in can:
            v = cols[n][0]
            cols[n] = rng.choice([v, v.item()]) if n != "g" else str(v)
    elif kind == "strided":
        for n in names:
            c = cols[n]
            wide = numpy.empty(2 * len(c), dtype=c.dtype)
            if len(c):
                wide[::2] = c
                wide[1::2] = c[0]
            cols[n] = wide[::2]
    elif kind == "readonly":
        for n in names:
            cols[n].flags.writeable = False
    elif kind == "extra":
        for n in COLUMNS:
            if n not in cols:
                cols[n] = array(n, [r[n] for r in rows], dtype)
        cols["unrelated"] = numpy.zeros(len(rows) + 1)
        names = list(cols)
        rng.shuffle(names)
    if "g" in cols and kind in ("dict", "kwargs", "lazy", "pandas") and form["seed"] % 4 == 0:
        cols["g"] = cols["g"].astype(object)        # as data frames keep text
    cols = dict((n, cols[n]) for n in names)
    if kind == "kwargs":
        return (), dict(cols), cols
    if kind == "mixed":
        two = [n for n in names if rng.random() < 0.5]
        one = dict((n, cols[n]) for n in names if n not in two or rng.random() < 0.3)
        # fields given twice: the keyword has precedence
        one = dict((n, (c if n not in two else c[::-1] if hasattr(c, "shape") else c)) for n, c in one.items())
        if rng.random() < 0.5:
            one = Lazy(one, on_read)
        return (one,), dict((n, cols[n]) for n in two), cols
    if kind == "lazy":
        return (Lazy(cols, on_read),), {}, cols
    if kind == "pandas":
        return (DataFrame(cols),), {}, cols
    return (cols,), {}, cols

def rename(args, kwargs, names):
    """The same delivery with columns under other names."""
    def one(cols):
        if isinstance(cols, (Lazy, DataFrame)):
            cols._columns = one(cols._columns)
            return cols
        return dict((names.get(n, n), c) for n, c in cols.items())
    return tuple(one(a) for a in args), one(kwargs)

def fill(obj, rows, fields, form):
    args, kwargs, cols = deliver(rows, fields, form)
    obj.fill(*args, **kwargs)

# ---------------------------------------------------------------- books

def tree(node):
    """A real histogram or book from a gen.tree."""
    import collections, copy
    if "spec" in node:
        return hist(node["spec"])
    cls = {"SamplesBook": None, "Book": histbook.Book, "ChannelsBook": histbook.ChannelsBook, "SystematicsBook": histbook.SystematicsBook, "GenericBook": histbook.book.GenericBook}[node["type"]]
    if node["type"] == "SamplesBook":
        out = histbook.SamplesBook(node["samples"], collections.OrderedDict((n, tree(x)) for n, x in node["items"]))
    else:
        out = cls(collections.OrderedDict((n, tree(x)) for n, x in node["items"]))
    for k, v in node["attachment"].items():
        out.attach(k, copy.deepcopy(v))
    return out

def hists(x):
    """(path, histogram) pairs of a histogram or book."""
    if isinstance(x, histbook.Hist):
        return [("", x)]
    return x.items(recursive=True, onlyhist=True)
