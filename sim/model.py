"""Independent reference model of what a histogram means: row by row, bin by bin.

Nothing here is shared with histbook: expressions are evaluated with Python's own eval on
one row, edges are exact rationals, and sums are exact rationals.
"""
import math
from fractions import Fraction

from sim.gen import num

ENV = {"__builtins__": {}, "abs": abs, "max": max, "min": min, "where": lambda c, a, b: a if c else b, "floor": math.floor, "ceil": math.ceil, "sqrt": math.sqrt, "True": True, "False": False}

def _quiet(fn):
    def f(*args):
        try:
            return fn(*args)
        except ValueError:
            return float("nan")
        except OverflowError:
            return float("inf")
    return f

class _Names(object):
    pass

for _n in ("acos", "asin", "atan", "atan2", "cos", "cosh", "exp", "expm1", "hypot", "log", "log10", "log1p", "log2", "pow", "sinh", "sin", "tanh", "tan", "copysign", "trunc", "erf", "erfc", "gamma", "lgamma", "fabs", "acosh", "asinh", "atanh"):
    ENV[{"acos": "arccos", "asin": "arcsin", "atan": "arctan", "atan2": "arctan2", "acosh": "arccosh", "asinh": "arcsinh", "atanh": "arctanh"}.get(_n, _n)] = _quiet(getattr(math, _n))
ENV["deg2rad"], ENV["rad2deg"] = math.radians, math.degrees
ENV["rint"] = round
ENV["mod"] = lambda a, b: a % b
ENV["exp2"] = lambda a: 2.0 ** a
ENV["heaviside"] = lambda a, m: 0.0 if a < 0 else 1.0 if a > 0 else m
ENV["logaddexp"] = lambda a, b: math.log(math.exp(a) + math.exp(b))
ENV["logaddexp2"] = lambda a, b: math.log2(2.0**a + 2.0**b)
ENV["sign"] = lambda a: (a > 0) - (a < 0)
ENV["factorial"] = math.factorial
ENV["isnan"], ENV["isinf"], ENV["isfinite"] = (lambda a: a != a), (lambda a: abs(a) == float("inf")), (lambda a: a == a and abs(a) != float("inf"))
ENV["round"], ENV["fmax"], ENV["fmin"], ENV["pi"], ENV["e"] = round, max, min, math.pi, math.e
ENV["math"], ENV["numpy"] = _Names(), _Names()
for _n in ("acos", "asin", "atan", "atan2", "acosh", "asinh", "atanh", "cos", "cosh", "exp", "expm1", "hypot", "log", "log10", "log1p", "pow", "sinh", "sin", "sqrt", "tanh", "tan", "copysign", "trunc", "erf", "lgamma", "degrees", "radians", "floor", "ceil"):
    setattr(ENV["math"], _n, _quiet(getattr(math, _n)))
for _n in ("sin", "cos", "arcsin", "arctan2", "arctanh", "arccosh", "deg2rad", "rad2deg", "log1p", "log2", "tanh", "floor", "sign", "where", "rint", "exp2", "logaddexp", "round"):
    setattr(ENV["numpy"], _n, ENV[_n])
ENV["numpy"].maximum, ENV["numpy"].minimum, ENV["numpy"].absolute, ENV["numpy"].power, ENV["numpy"].remainder = max, min, abs, ENV["pow"], ENV["mod"]

_code = {}
def ev(expr, env):
    c = _code.get(expr)
    if c is None:
        c = _code[expr] = compile(expr, "<expr>", "eval")
    return eval(c, ENV, env)

def environment(spec, row):
    names = spec.get("names", {})
    env = dict((names.get(n, n), num(v) if n != "g" else v) for n, v in row.items())
    env.update([(n, ev(e, env) if isinstance(e, str) else e) for n, e in spec["defs"].items()])    # each refers to columns only
    return env

DROP = object()

def isnan(v):
    return isinstance(v, float) and v != v

def interval(v, edges, a):
    """Index among [underflow] finite... [overflow] [nanflow], or DROP."""
    u = 1 if a.get("underflow") else 0
    n = len(edges) - 1
    if isnan(v):
        return n + u + (1 if a["overflow"] else 0) if a.get("nanflow") else DROP
    if v == float("inf"):
        pos = n + 1
    elif v == float("-inf"):
        pos = 0
    else:
        v = Fraction(v)
        pos = 0
        for e in edges:
            if v > e or (a["closedlow"] and v == e):
                pos += 1
            else:
                break
    # pos = 0: below first edge; pos = n + 1: above last edge
    if pos == 0:
        return 0 if a["underflow"] else DROP
    if pos == n + 1:
        return n + u if a["overflow"] else DROP
    return pos - 1 + u

def place(a, v):
    k = a["kind"]
    if k == "groupby":
        return v
    if k == "groupbin":
        if isnan(v):
            return "NaN" if a["nanflow"] else DROP
        if v in (float("inf"), float("-inf")):
            return v
        q = (Fraction(v) - Fraction(a["origin"])) / Fraction(a["binwidth"])
        i = math.floor(q) if a["closedlow"] else math.ceil(q) - 1
        return float(i * Fraction(a["binwidth"]) + Fraction(a["origin"]))
    if k == "bin":
        lo, hi = Fraction(a["low"]), Fraction(a["high"])
        if a["numbins"] > 16 and not isnan(v) and abs(v) != float("inf"):
            # the two edges around the value and the ends are enough
            q = (Fraction(v) - lo) * a["numbins"] / (hi - lo)
            pos = math.floor(q) + 1 if a["closedlow"] else math.ceil(q)
            pos = max(0, min(a["numbins"] + 1, pos))
            if pos == 0:
                return 0 if a["underflow"] else DROP
            if pos == a["numbins"] + 1:
                return a["numbins"] + (1 if a["underflow"] else 0) if a["overflow"] else DROP
            return pos - 1 + (1 if a["underflow"] else 0)
        if a["numbins"] > 16:
            if not isnan(v):
                if v < 0:
                    return 0 if a["underflow"] else DROP
                return a["numbins"] + (1 if a["underflow"] else 0) if a["overflow"] else DROP
            return a["numbins"] + (1 if a["underflow"] else 0) + (1 if a["overflow"] else 0) if a["nanflow"] else DROP
        return interval(v, [lo + (hi - lo) * i / a["numbins"] for i in range(a["numbins"] + 1)] if a["numbins"] else [lo], a)
    if k == "split":
        return interval(v, [Fraction(e) for e in a["edges"]], a)
    if k == "intbin":
        u = 1 if a["underflow"] else 0
        if v < a["min"]:
            return 0 if a["underflow"] else DROP
        if v > a["max"]:
            return a["max"] - a["min"] + 1 + u if a["overflow"] else DROP
        return int(v) - a["min"] + u
    if k == "cut":
        return 1 if v else 0
    raise AssertionError(k)

class Model(object):
    """Bins are keyed by (group keys..., fixed indexes...); values are exact sums."""

    def __init__(self, spec):
        self.spec = spec
        self.group = [a for a in spec["axes"] if a["kind"] in ("groupby", "groupbin")]
        self.fixed = [a for a in spec["axes"] if a["kind"] in ("bin", "intbin", "split", "cut")]
        self.profile = [a for a in spec["axes"] if a["kind"] == "profile"]
        self.weighted = spec["weight"] is not None or spec["filter"] is not None
        self.clear()

    def clear(self):
        self.bins = {}
        self.seenkeys = set()

    def fill(self, rows, times=1):
        """Fill all the rows, each as many times."""
        for r in rows:
            self.fill1(r, times)

    def fill1(self, r, times):
        spec = self.spec
        env = environment(spec, r)
        where = []
        for a in self.group + self.fixed:
            p = place(a, ev(a["expr"], env))
            if p is DROP:
                return
            where.append(p)
        w = 1
        if spec["weight"] is not None:
            w = spec["weight"] if not isinstance(spec["weight"], str) else ev(spec["weight"], env)
        if spec["filter"] is not None and not ev(spec["filter"], env):
            w = 0
        if isnan(w):
            w = 0
        w = Fraction(w)
        self.seenkeys.add(tuple(where[:len(self.group)]))
        b = self.bins.setdefault(tuple(where), [Fraction(0), Fraction(0)] + [[Fraction(0), Fraction(0)] for p in self.profile])
        b[0] += w * times
        b[1] += w * w * times
        for i, p in enumerate(self.profile):
            v = Fraction(ev(p["expr"], env))
            b[2 + i][0] += w * v * times
            b[2 + i][1] += w * v * v * times
