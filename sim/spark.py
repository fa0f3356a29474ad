"""A simulated Spark: the part of pyspark's interface that histbook's Spark fill needs, with its documented semantics.

Long arithmetic wraps, floor and ceil saturate, NaN is equal to NaN and greater than any other number, division by
zero and null operands give null, comparisons are three-valued.  A DataFrame is a list of partitions; a job (collect,
count, toLocalIterator) runs its partitions in a seeded order, may lose and repeat tasks, returns groups in a seeded
order, takes a seeded number of scheduler turns and may fail."""
import math
import sys
import types

LONG_MAX, LONG_MIN = 2**63 - 1, -2**63

class AnalysisException(Exception):
    pass

class Py4JJavaError(Exception):
    pass

def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)

def wrap(v):
    if isinstance(v, int) and not isinstance(v, bool):
        return (v - LONG_MIN) % 2**64 + LONG_MIN
    return v

def tolong(v):
    if v != v:
        return 0
    if v >= LONG_MAX:
        return LONG_MAX
    if v <= LONG_MIN:
        return LONG_MIN
    return int(v)

def order(a, b):
    """-1, 0 or 1 in Spark's order of values."""
    for v in (a, b):
        if isinstance(v, bool) != isinstance(a, bool) or isinstance(v, str) != isinstance(a, str):
            raise AnalysisException("data type mismatch: {0!r} and {1!r}".format(a, b))
    an, bn = a != a, b != b
    if an or bn:
        return (an > bn) - (an < bn)
    return (a > b) - (a < b)

def number(v):
    """Implicit cast to a number."""
    if isinstance(v, bool):
        raise AnalysisException("data type mismatch: a boolean in arithmetic")
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            return None
    return v

def arith(fn):
    def ev(a, b):
        if a is None or b is None:
            return None
        a, b = number(a), number(b)
        if a is None or b is None:
            return None
        if isinstance(a, float) or isinstance(b, float):
            a, b = float(a), float(b)
        return wrap(fn(a, b))
    return ev

def _div(a, b):
    if a is None or b is None or number(b) == 0:
        return None
    return float(number(a)) / float(number(b))

def _mod(a, b):
    if a is None or b is None or number(b) == 0:
        return None
    a, b = number(a), number(b)
    if isinstance(a, float) or isinstance(b, float):
        if math.isinf(a) or a != a or b != b:
            return float("nan")
        return math.fmod(a, b)
    return int(math.copysign(1, a)) * (abs(a) % abs(b))

def compare(fn):
    return lambda a, b: None if a is None or b is None else fn(order(a, b))

def _and(a, b):
    if a is False or b is False:
        return False
    return None if a is None or b is None else True

def _or(a, b):
    if a is True or b is True:
        return True
    return None if a is None or b is None else False

def tocol(x):
    if isinstance(x, Column):
        return x
    if not (x is None or isinstance(x, (bool, int, float, str))):
        import numpy
        if isinstance(x, numpy.generic):
            raise AttributeError("'{0}' object has no attribute '_get_object_id'".format(type(x).__name__))
        raise TypeError("not a column or literal: {0!r}".format(x))
    return Column(lambda row: x, (), repr(x))

class Column(object):
    def __init__(self, ev, refs, name="col", agg=None, cases=None):
        self.ev, self.refs, self.name, self.agg, self.cases = ev, frozenset(refs), name, agg, cases
    def _bin(self, fn, other, flip=False):
        a, b = self, tocol(other)
        if flip:
            a, b = b, a
        return Column(lambda row: fn(a.ev(row), b.ev(row)), a.refs | b.refs)
    def __add__(self, o): return self._bin(arith(lambda a, b: a + b), o)
    def __radd__(self, o): return self._bin(arith(lambda a, b: a + b), o, True)
    def __sub__(self, o): return self._bin(arith(lambda a, b: a - b), o)
    def __rsub__(self, o): return self._bin(arith(lambda a, b: a - b), o, True)
    def __mul__(self, o): return self._bin(arith(lambda a, b: a * b), o)
    def __rmul__(self, o): return self._bin(arith(lambda a, b: a * b), o, True)
    def __truediv__(self, o): return self._bin(_div, o)
    def __rtruediv__(self, o): return self._bin(_div, o, True)
    __div__, __rdiv__ = __truediv__, __rtruediv__
    def __mod__(self, o): return self._bin(_mod, o)
    def __rmod__(self, o): return self._bin(_mod, o, True)
    def __neg__(self): return Column(lambda row: None if self.ev(row) is None else wrap(-self.ev(row)), self.refs)
    def __eq__(self, o): return self._bin(compare(lambda c: c == 0), o)
    def __ne__(self, o): return self._bin(compare(lambda c: c != 0), o)
    def __lt__(self, o): return self._bin(compare(lambda c: c < 0), o)
    def __le__(self, o): return self._bin(compare(lambda c: c <= 0), o)
    def __gt__(self, o): return self._bin(compare(lambda c: c > 0), o)
    def __ge__(self, o): return self._bin(compare(lambda c: c >= 0), o)
    __hash__ = object.__hash__
    def __and__(self, o): return self._bin(_and, o)
    def __rand__(self, o): return self._bin(_and, o, True)
    def __or__(self, o): return self._bin(_or, o)
    def __ror__(self, o): return self._bin(_or, o, True)
    def __invert__(self): return Column(lambda row: None if self.ev(row) is None else not self.ev(row), self.refs)
    def __bool__(self):
        raise ValueError("Cannot convert column into bool")
    __nonzero__ = __bool__
    def isNull(self): return Column(lambda row: self.ev(row) is None, self.refs)
    def isNotNull(self): return Column(lambda row: self.ev(row) is not None, self.refs)
    def between(self, lo, hi): return (self >= lo) & (self <= hi)
    def eqNullSafe(self, o):
        o = tocol(o)
        return Column(lambda row: (self.ev(row) is None and o.ev(row) is None) or (self.ev(row) is not None and o.ev(row) is not None and order(self.ev(row), o.ev(row)) == 0), self.refs | o.refs)
    def isin(self, *values):
        if len(values) == 1 and isinstance(values[0], (list, set, tuple, frozenset)):
            values = values[0]
        values = [tocol(v) for v in values]
        def ev(row):
            v = self.ev(row)
            return None if v is None else any(order(v, c.ev(row)) == 0 for c in values)
        return Column(ev, self.refs)
    def cast(self, what):
        name = what if isinstance(what, str) else type(what).__name__
        def ev(row):
            v = self.ev(row)
            if v is None:
                return None
            if name in ("double", "float", "DoubleType", "FloatType"):
                return float(v)
            if name in ("int", "integer", "bigint", "long", "IntegerType", "LongType"):
                return tolong(v)
            if name in ("boolean", "BooleanType"):
                return bool(v)
            if name in ("string", "StringType"):
                return str(v)
            raise AnalysisException(name)
        return Column(ev, self.refs)
    astype = cast
    def alias(self, *names, **opts):
        return Column(self.ev, self.refs, names[0], self.agg, self.cases)
    name_ = alias
    def when(self, condition, value):
        if self.cases is None:
            raise TypeError("when() can only be applied on a Column previously generated by when() function")
        return _case(self.cases + [(condition, tocol(value))], None)
    def otherwise(self, value):
        if self.cases is None:
            raise TypeError("otherwise() can only be applied on a Column previously generated by when() function")
        return _case(self.cases, tocol(value))

def _case(cases, default):
    refs = set(default.refs if default is not None else ())
    for c, v in cases:
        if not isinstance(c, Column):
            raise TypeError("condition should be a Column")
        refs |= c.refs | v.refs
    def ev(row):
        for c, v in cases:
            cv = c.ev(row)
            if not (cv is None or isinstance(cv, bool)):
                raise AnalysisException("condition of when is not boolean: {0!r}".format(cv))
            if cv:
                return v.ev(row)
        return None if default is None else default.ev(row)
    return Column(ev, refs, cases=None if default is not None else cases)

class Row(tuple):
    def asDict(self):
        return dict(enumerate(self))

# ---------------------------------------------------------------- functions

def _double(fn):
    """A function of a double, null if null; NaN outside of its domain."""
    def f(c):
        c = _c(c)
        def ev(row):
            v = c.ev(row)
            if v is None:
                return None
            v = number(v)
            if v is None:
                return None
            try:
                return fn(float(v))
            except ValueError:
                return float("nan")
            except OverflowError:
                return float("inf")
        return Column(ev, c.refs)
    return f

def _c(c):
    return Column(lambda row: row[c], (c,), c) if isinstance(c, str) else tocol(c)

def _round(v, half_even=False):
    if v is None or isinstance(v, int):
        return v
    if v != v or math.isinf(v):
        return v
    if half_even:
        return float(round(v))
    return math.copysign(math.floor(abs(v) + 0.5), v)

def _extreme(sign):
    def f(*cols):
        if len(cols) < 2:
            raise ValueError("should take at least two columns")
        cols = [_c(c) for c in cols]
        def ev(row):
            best = None
            for c in cols:
                v = c.ev(row)
                if v is not None and (best is None or order(v, best) * sign > 0):
                    best = v
            if best is not None and not isinstance(best, (bool, str)) and any(isinstance(c.ev(row), float) for c in cols):
                best = float(best)
            return best
        return Column(ev, frozenset().union(*[c.refs for c in cols]))
    return f

def _agg(step, first, last=lambda s: s):
    def f(c):
        c = _c(c)
        return Column(None, c.refs, "agg", agg=(c, first, step, last))
    return f

def _sumstep(s, v):
    return s if v is None else v if s is None else wrap(s + v)

class Functions(types.ModuleType):
    pass

def functions():
    m = Functions("pyspark.sql.functions")
    m.lit = tocol
    m.col = m.column = _c
    m.abs = lambda c: Column(lambda row: None if _c(c).ev(row) is None else wrap(abs(number(_c(c).ev(row)))), _c(c).refs)
    m.greatest, m.least = _extreme(1), _extreme(-1)
    def integral(fn):
        def f(c):
            c = _c(c)
            def ev(row):
                v = c.ev(row)
                if v is None:
                    return None
                v = number(v)
                return v if v is None or isinstance(v, int) else tolong(v if v != v or math.isinf(v) else fn(v))
            return Column(ev, c.refs)
        return f
    m.floor, m.ceil = integral(math.floor), integral(math.ceil)
    m.ceiling = m.ceil
    m.round = lambda c, scale=0: Column(lambda row: _round(_c(c).ev(row)), _c(c).refs)
    m.bround = lambda c, scale=0: Column(lambda row: _round(_c(c).ev(row), True), _c(c).refs)
    m.rint = _double(lambda v: _round(v, True))
    for n in ("acos", "asin", "atan", "cos", "cosh", "exp", "expm1", "sinh", "sin", "sqrt", "tanh", "tan", "degrees", "radians"):
        setattr(m, n, _double(getattr(math, n)))
    def logs(fn, low):
        def f(c):
            c = _c(c)
            return Column(lambda row: None if c.ev(row) is None or c.ev(row) <= low else fn(c.ev(row)), c.refs)
        return f
    m.log, m.log10, m.log2, m.log1p = logs(math.log, 0), logs(math.log10, 0), logs(math.log2, 0), logs(math.log1p, -1)
    def two(fn):
        def f(a, b):
            a, b = _c(a), _c(b)
            return Column(lambda row: None if a.ev(row) is None or b.ev(row) is None else fn(float(a.ev(row)), float(b.ev(row))), a.refs | b.refs)
        return f
    def power(a, b):
        try:
            return math.pow(a, b)
        except ValueError:
            return float("nan")
        except OverflowError:
            return float("inf")
    m.pow, m.hypot, m.atan2 = two(power), two(math.hypot), two(math.atan2)
    m.signum = m.sign = _double(lambda v: v if v == 0 or v != v else math.copysign(1.0, v))
    m.shiftLeft = m.shiftleft = lambda c, n: Column(lambda row: wrap(_c(c).ev(row) << n), _c(c).refs)
    m.shiftRight = m.shiftright = lambda c, n: Column(lambda row: _c(c).ev(row) >> n, _c(c).refs)
    m.factorial = lambda c: Column(lambda row: math.factorial(_c(c).ev(row)) if 0 <= _c(c).ev(row) <= 20 else None, _c(c).refs)
    m.isnull = lambda c: _c(c).isNull()
    m.isnan = lambda c: Column(lambda row: _c(c).ev(row) is not None and not isinstance(_c(c).ev(row), str) and _c(c).ev(row) != _c(c).ev(row), _c(c).refs)
    def nanvl(a, b):
        a, b = _c(a), _c(b)
        def ev(row):
            v = a.ev(row)
            if v is None:
                return None
            v = float(number(v))
            if v != v:
                v = b.ev(row)
                v = None if v is None else number(v)
                v = None if v is None else float(v)
            return v
        return Column(ev, a.refs | b.refs)
    m.nanvl = nanvl
    def coalesce(*cols):
        cols = [_c(c) for c in cols]
        def ev(row):
            for c in cols:
                v = c.ev(row)
                if v is not None:
                    return v
            return None
        return Column(ev, frozenset().union(*[c.refs for c in cols]))
    m.coalesce = coalesce
    def struct(*cols):
        if len(cols) == 1 and isinstance(cols[0], (list, tuple)):
            cols = cols[0]
        cols = [_c(c) for c in cols]
        return Column(lambda row: Row(c.ev(row) for c in cols), frozenset().union(*[c.refs for c in cols]), "struct")
    m.struct = struct
    m.when = lambda condition, value: _case([(condition, tocol(value))], None)
    m.sum = _agg(_sumstep, None)
    m.count = lambda c: _agg(lambda s, v: s + (v is not None), 0)(tocol(1) if c == "*" else c) if isinstance(c, str) else _agg(lambda s, v: s + (v is not None), 0)(c)
    m.max = _agg(lambda s, v: s if v is None else v if s is None or order(v, s) > 0 else s, None)
    m.min = _agg(lambda s, v: s if v is None else v if s is None or order(v, s) < 0 else s, None)
    m.avg = m.mean = _agg(lambda s, v: s if v is None else (s[0] + v, s[1] + 1), (0.0, 0), lambda s: s[0] / s[1] if s[1] else None)
    return m

# ---------------------------------------------------------------- data frames

class DataFrame(object):
    """names: columns; source: list of partitions (lists of dicts) or a function that computes them; refs: columns of the original table it reads"""
    def __init__(self, cluster, names, partitions, base=None):
        self._cluster, self._names, self._partitions = cluster, list(names), partitions
        self._base = base if base is not None else dict((n, frozenset([n])) for n in names)
    @property
    def columns(self):
        return list(self._names)
    def __getitem__(self, n):
        if isinstance(n, int):
            n = self._names[n]
        if isinstance(n, (list, tuple)):
            return self.select(*n)
        if n not in self._names:
            raise AnalysisException('Cannot resolve column name "{0}" among ({1})'.format(n, ", ".join(self._names)))
        return Column(lambda row: row[n], (n,), n)
    def __getattr__(self, n):
        if n.startswith("_") or n not in self.__dict__.get("_names", ()):
            raise AttributeError(n)
        return self[n]
    def _resolve(self, cols):
        if len(cols) == 1 and isinstance(cols[0], (list, tuple)):
            cols = cols[0]
        out = [self[c] if isinstance(c, str) else c for c in cols]
        for c in out:
            missing = [r for r in c.refs if r not in self._names]
            if missing:
                raise AnalysisException("cannot resolve {0}".format(missing))
        return out
    def _through(self, refs):
        return frozenset().union(*[self._base[r] for r in refs])
    def select(self, *cols):
        cols = self._resolve(cols)
        names = [c.name for c in cols]
        parts = self._partitions
        return DataFrame(self._cluster, names, lambda: [lambda p=p: [dict((c.name, c.ev(row)) for c in cols) for row in p()] for p in parts()], dict((c.name, self._through(c.refs)) for c in cols))
    def withColumn(self, name, col):
        return self.select(*([self[n] for n in self._names if n != name] + [col.alias(name)]))
    def filter(self, cond):
        parts = self._partitions
        base = dict((n, r | self._through(cond.refs)) for n, r in self._base.items())
        return DataFrame(self._cluster, self._names, lambda: [lambda p=p: [row for row in p() if cond.ev(row)] for p in parts()], base)
    where = filter
    def groupBy(self, *cols):
        return GroupedData(self, self._resolve(cols))
    groupby = groupBy
    def agg(self, *aggs):
        return GroupedData(self, []).agg(*aggs)
    def repartition(self, *args): return self
    def coalesce(self, *args): return self
    def cache(self): return self
    def persist(self, *args): return self
    def unpersist(self, *args): return self
    def _reads(self):
        return frozenset().union(*self._base.values())
    def _run(self):
        return self._cluster.job(self)
    def collect(self):
        return [Row(row[n] for n in self._names) for row in self._run()]
    def toLocalIterator(self, prefetchPartitions=False):
        # rows arrive as partitions finish, so that a failure can come after some of them
        def rows():
            try:
                all = self._run()
            except BaseException:
                some = [row for p in self._partitions() for row in p()]
                for row in some[:self._cluster.rng.randint(0, len(some))]:
                    yield Row(row[n] for n in self._names)
                raise
            for row in all:
                yield Row(row[n] for n in self._names)
        return rows()
    def count(self):
        return len(self._run())
    def take(self, n):
        return self.collect()[:n]
DataFrame.__module__ = "pyspark.sql.dataframe"

class GroupedData(object):
    def __init__(self, df, keys):
        self.df, self.keys = df, keys
    def agg(self, *aggs):
        df, keys = self.df, self.keys
        for a in aggs:
            if a.agg is None:
                raise AnalysisException("not an aggregate")
        names = ["key{0}".format(i) for i in range(len(keys))] + ["agg{0}".format(i) for i in range(len(aggs))]
        def parts():
            def reduce(order=None):
                groups = {}
                for p in df._cluster.shuffle("partitions", df._partitions()):
                    for row in df._cluster.task(p):
                        key = tuple(_groupkey(k.ev(row)) for k in keys)
                        if key not in groups:
                            groups[key] = ([k.ev(row) for k in keys], [a.agg[1] for a in aggs])
                        state = groups[key][1]
                        for i, a in enumerate(aggs):
                            state[i] = a.agg[2](state[i], a.agg[0].ev(row))
                return df._cluster.shuffle("groups", [dict(zip(names, ks + [a.agg[3](s) for a, s in zip(aggs, state)])) for ks, state in groups.values()])
            return [reduce]
        base = dict((n, df._through(c.refs)) for n, c in zip(names, list(keys) + list(aggs)))
        return DataFrame(df._cluster, names, parts, base)

def _groupkey(v):
    if isinstance(v, tuple):
        return tuple(_groupkey(x) for x in v)
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, float) and v != v:
        return "NaN!"
    return v

class Cluster(object):
    """plan: {"seed", "failjobs": [n, ...], "badcolumn": name or None, "tasks": probability of a lost task, "turns"}"""
    def __init__(self, rng, on_fault, pause):
        self.rng, self.on_fault, self.pause = rng, on_fault, pause
        self.jobs = 0
        self.failjobs = {}
        self.badcolumns = {}
        self.lose = 0.0
        self.turns = 0
        self.failed = self.succeeded = 0
    def shuffle(self, what, items):
        items = list(items)
        self.rng.shuffle(items)
        return items
    def task(self, p):
        while self.rng.random() < self.lose:
            self.on_fault("task lost and repeated")
            p()
        return p()
    def job(self, df):
        n = self.jobs
        self.jobs += 1
        turns = self.rng.randint(0, self.turns)
        for i in range(turns):
            self.pause()
        bad = [c for c in sorted(df._reads()) if c in self.badcolumns]
        if n in self.failjobs or bad:
            if self.rng.random() < 0.5:
                [q() for p in df._partitions() for q in [p]]     # fails after the work was done
            self.failed += 1
            err = self.failjobs[n] if n in self.failjobs else self.badcolumns[bad[0]]
            self.on_fault("job failed: " + type(err).__name__)
            raise err
        out = [row for p in df._partitions() for row in self.task(p)]
        for i in range(self.rng.randint(0, self.turns)):
            self.pause()
        self.succeeded += 1
        return out
    def frame(self, names, rows, cuts):
        """A DataFrame over these rows, divided at these points."""
        parts, a = [], 0
        for b in list(cuts) + [len(rows)]:
            parts.append(rows[a:b])
            a = b
        return DataFrame(self, names, lambda: [lambda p=p: [dict(r) for r in p] for p in parts])

def install():
    ps, sql = types.ModuleType("pyspark"), types.ModuleType("pyspark.sql")
    fcns, frame = functions(), types.ModuleType("pyspark.sql.dataframe")
    frame.DataFrame = sql.DataFrame = DataFrame
    colmod = types.ModuleType("pyspark.sql.column")
    colmod.Column = sql.Column = Column
    sql.Row = Row
    ps.sql, sql.functions, sql.dataframe, sql.column = sql, fcns, frame, colmod
    ps.__path__ = sql.__path__ = []
    for n, m in (("pyspark", ps), ("pyspark.sql", sql), ("pyspark.sql.functions", fcns), ("pyspark.sql.dataframe", frame), ("pyspark.sql.column", colmod)):
        sys.modules[n] = m
