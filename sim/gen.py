"""Seeded generation of histogram specifications and data, as JSON data.

All quantities that may touch a bin edge are dyadic, so that sums, edges and weights are
exact in floating point and every comparison can be exact whatever the order of additions.
Field "u" is the exception: decimal bin widths, with data never near an edge.
"""
import math
import re

# ---------------------------------------------------------------- expressions: (text, fields)

NUM_X = [("x", "x"), ("x", "x"), ("x", "x"), ("2*x", "x"), ("x + 1", "x"), ("x - y", "xy"), ("x/2", "x"), ("x*2 - 1", "x"), ("-x", "x"), ("x + n", "xn"), ("x - y*z", "xyz"), ("0.5*x + z", "xz"), ("x*q/q", "xq"), ("x/q", "xq"), ("2*(x + 1)", "x"), ("3 - x", "x")]
NUM_Y = [("y", "y"), ("y", "y"), ("y", "y"), ("y*z", "yz"), ("y + z", "yz"), ("y - z", "yz"), ("-y", "y"), ("abs(y)", "y"), ("max(y, z)", "yz"), ("min(y, z)", "yz"), ("where(y > 0, y, z)", "yz"), ("y**2", "y"), ("(y + z)*2", "yz"), ("floor(y)", "y"), ("sqrt(abs(y))", "y"), ("z - 1", "z"), ("z", "z"), ("y*y - z", "yz"), ("y + y", "y"), ("3 - y", "y"), ("y*z/2", "yz"), ("where(b, y, -y)", "yb"), ("ceil(y) + z", "yz"), ("2*(y - 1)", "y"), ("(y + 1)*(z - 2)", "yz"), ("y*z*q/q", "yzq"), ("z*q*y/(q*q)", "zqy"), ("y/q", "yq"), ("(y - z)/q", "yzq"), ("-(y - 2)*3", "y"), ("y - (z - 1)", "yz"), ("(y + 1)**2", "y"), ("2*q - y", "qy"), ("where(y > z, where(b, y, z), 2*z)", "yzb"), ("-y + z - 1", "yz"), ("(-y)*(-z)", "yz")]
# powers and quotients of higher degree, still exact
POWERS = [("y**3", "y"), ("y*y*y", "y"), ("y**4", "y"), ("y*y*y*y", "y"), ("z*z*z*z - 1", "z"), ("z**4 - y", "yz"), ("y*y*y*z", "yz"), ("y*y*z*z", "yz"), ("y/(q*q*q)", "yq"), ("y/q**3", "yq"), ("y*q*q*q*q", "yq"), ("y/(q*q*q*q*q)", "yq"), ("y*y/(q*q)", "yq"), ("z*q**5/q**3", "zq"), ("(y - 1)**3", "y"), ("(y - z)**4/8", "yz"), ("y**3*z - 2", "yz"), ("k**4 - y", "ky"), ("z*z*z + y*y*y", "yz"), ("-y**3", "y"), ("(-y)**3", "y")]
POWERS5 = [("y**5", "y"), ("y*y*y*y*y", "y"), ("z**6", "z"), ("z*z*z*z*z*z*z", "z"), ("y*y*y*z*z", "yz"), ("k**5 - n", "kn"), ("z**5 + z", "z"), ("(z - 1)**5", "z"), ("y**5/q**5", "yq"), ("y*q**7/q**2", "yq")]
PROFILE = [e for e in NUM_Y if "sqrt" not in e[0]]    # only exact arithmetic
NUM_INT = [("n", "n"), ("n", "n"), ("n", "n"), ("n + 1", "n"), ("2*n", "n"), ("n - k", "nk"), ("k", "k"), ("n*k", "nk"), ("-n", "n"), ("abs(n)", "n"), ("2*(n - 1)", "n"), ("(n + 1)*k", "nk")]
BOOL = [("b", "b"), ("b", "b"), ("not b", "b"), ("y > 0", "y"), ("x >= 1", "x"), ("y > z", "yz"), ("b and y > 0", "by"), ("b or y <= 1", "by"), ("not b and y < 2", "by"), ("k in {1, 3}", "k"), ("g in {'aa', 'c'}", "g"), ("k not in {0, 2}", "k"), ("k in {0, 1, 3}", "k"), ("g in {'aa', 'b', 'dd'}", "g"), ("g not in {'b', 'c', 'zz', 'x'}", "g"), ("k in {2}", "k"), ("g == 'aa'", "g"), ("g != 'dd'", "g"), ("0 < y < 2", "y"), ("y == 1", "y"), ("n != 2", "n"), ("not (y > 0 and b)", "yb"), ("not (z > 1)", "z"), ("x > 0 or n > 2", "xn"), ("y + z >= 0.5", "yz"), ("n > k", "nk"), ("y*z < 1 and n >= 0", "yzn")]
FILTER = [("not b", "b"), ("y > 0", "y"), ("x < 2", "x"), ("y >= z", "yz"), ("b and y > -1", "by"), ("b or z <= 1", "bz"), ("k in {1, 2}", "k"), ("g in {'aa', 'b', 'c'}", "g"), ("k not in {0, 5, 6}", "k"), ("n != 2", "n"), ("not (y > 1)", "y"), ("-2 <= y < 2", "y"), ("y > 0 or n > 1", "yn")]
GROUP = [("g", "g"), ("g", "g"), ("g", "g"), ("k", "k"), ("n", "n"), ("k + n", "kn")]
WEIGHT = [("w", "w"), ("w", "w"), ("w", "w"), ("2*w", "w"), ("w*z", "wz"), ("w + 1", "w"), ("y", "y"), ("z*z", "z"), ("where(b, w, 1)", "wb"), ("w/q", "wq"), ("(w + 1)*(z + 2)", "wz"), ("-w", "w")]
DEFS = [("y + z", "yz"), ("2*y", "y"), ("y*z - 1", "yz"), ("max(y, 0.5)", "y"), ("z/2", "z")]

# functions of exactly representable values; compared with edges that are no special value: (text, fields, Spark has it)
MATH = [("fabs(y)", "y", 1), ("arccos(z/4)", "z", 1), ("arcsin(z/4)", "z", 1), ("arctan(y)", "y", 1), ("arctan2(y, z)", "yz", 1), ("arctan2(z, q)", "zq", 1), ("cos(y)", "y", 1), ("cosh(z)", "z", 1), ("deg2rad(50*y)", "y", 1), ("rad2deg(z/20)", "z", 1), ("exp(z)", "z", 1), ("expm1(z)", "z", 1), ("hypot(y, z)", "yz", 1), ("log(q)", "q", 1), ("log10(8*q)", "q", 1), ("log1p(q)", "q", 1), ("log2(q)", "q", 1), ("pow(q, z + 0.125)", "qz", 1), ("q**(z - 0.125)", "qz", 1), ("sinh(z)", "z", 1), ("sin(y)", "y", 1), ("sqrt(q)", "q", 1), ("tanh(z)", "z", 1), ("tan(y)", "y", 1), ("rint(y)", "y", 1), ("k % 2", "k", 0), ("mod(k, 3)", "k", 1), ("max(sin(y), cos(z))", "yz", 1), ("y/(z*z + 1)", "yz", 1), ("(y - z)/(k + 1)", "yzk", 1), ("1/(y*y + 2)", "y", 1), ("y**2/(q + 1)", "yq", 1), ("(q + 1)**-2", "q", 1), ("q**-1", "q", 1), ("sqrt(y*y + z*z)", "yz", 1), ("sin(y)*cos(z) + exp(z)/3", "yz", 1),
        ("arcsinh(y)", "y", 0), ("arccosh(q + 1)", "q", 0), ("arctanh(z/8)", "z", 0), ("copysign(y, z + 0.125)", "yz", 0), ("exp2(z)", "z", 0), ("heaviside(y, 0.5)", "y", 0), ("logaddexp(y, z)", "yz", 0), ("logaddexp2(y, z)", "yz", 0), ("sign(y)", "y", 0), ("trunc(y)", "y", 0), ("erf(y)", "y", 0), ("erfc(z)", "z", 0), ("gamma(q)", "q", 0), ("lgamma(q + k)", "qk", 0), ("factorial(k)", "k", 0), ("y % 2", "y", 0), ("mod(y, 1.5)", "y", 0), ("math.atan2(y, z)", "yz", 0), ("numpy.sin(y)", "y", 0), ("math.degrees(z/20)", "z", 0),
        ("y // 2", "y", 0), ("n // 3", "n", 0), ("(y + z) // 0.75", "yz", 0), ("y // q", "yq", 0), ("round(y)", "y", 0), ("numpy.round(y + z)", "yz", 0), ("y - round(y)", "y", 0), ("fmax(y, z)", "yz", 0), ("fmin(y, z)", "yz", 0), ("numpy.maximum(y, z)", "yz", 0), ("numpy.minimum(y, 2*z)", "yz", 0), ("numpy.absolute(y)", "y", 0), ("math.asinh(y)", "y", 0), ("math.acos(z/4)", "z", 0), ("numpy.arcsin(z/4)", "z", 0), ("numpy.arctan2(y, q)", "yq", 0), ("math.atan(y)", "y", 0), ("math.radians(40*y)", "y", 0), ("numpy.deg2rad(40*y)", "y", 0), ("numpy.rad2deg(z/20)", "z", 0), ("math.pow(q, z + 0.125)", "qz", 0), ("numpy.power(q, y)", "qy", 0), ("math.exp(z)", "z", 0), ("numpy.log1p(q)", "q", 0), ("math.log10(8*q)", "q", 0), ("numpy.log2(q)", "q", 0), ("math.hypot(y, z)", "yz", 0), ("math.sinh(z)", "z", 0), ("numpy.tanh(z)", "z", 0), ("math.cosh(z)", "z", 0), ("math.tan(y)", "y", 0), ("numpy.cos(y)", "y", 0), ("math.trunc(y)", "y", 0), ("math.ceil(y)", "y", 0), ("numpy.floor(y)", "y", 0), ("math.sqrt(q)", "q", 0), ("numpy.sign(y)", "y", 0), ("numpy.remainder(y, 1.5)", "y", 0), ("numpy.where(y > z, y, 2*z)", "yz", 0), ("where(y > 0 and b, sin(y), cos(z))", "yzb", 0), ("numpy.rint(y)", "y", 0), ("math.copysign(y, z + 0.125)", "yz", 0), ("math.expm1(z)", "z", 0), ("numpy.exp2(z)", "z", 0), ("math.erf(y)", "y", 0), ("math.lgamma(q)", "q", 0), ("numpy.arctanh(z/8)", "z", 0), ("numpy.arccosh(q + 1)", "q", 0), ("numpy.logaddexp(y, z)", "yz", 0), ("2*pi*y", "y", 0), ("y*pi - e", "y", 0), ("+y", "y", 0)]
MATH_CUT = [("sin(y) > 0.3", "y"), ("hypot(y, z) < 2.3", "yz")]

def rexpr(rng, depth, deg=3):
    """A random expression, exact on dyadic values, that no algebra makes constant: (text, fields, degree in the fields)."""
    out = _rexpr(rng, depth, deg)
    if depth > 0 and not _varies(rng, out[0]):
        f = rng.choice("yzk")
        return f, {f}, 1
    return out

def _rexpr(rng, depth, deg):
    r = rng.random()
    if depth == 0 or r < 0.12:
        f = rng.choice("yyyzzzkq")
        return f, {f}, 1
    if r < 0.55:
        op = rng.choice(["+", "-", "-", "*"])
        a = rexpr(rng, depth - 1, deg - 1 if op == "*" else deg)
        if rng.random() < 0.3:
            c = rng.choice(["1", "2", "3", "0.5", "4", "1.5", "0", "-1", "-2", "(1 + 1)", "(2 - 3)", "2**2", "(1/2)", "(7//2)", "(7%4)", "(3*0.5)"])
            b = (c, set(), 0)
        else:
            b = rexpr(rng, depth - 1, deg - a[2] if op == "*" else deg)
        if op == "*" and a[2] + b[2] > deg:
            op = "+"
        if rng.random() < 0.5:
            a, b = b, a
        form = rng.choice(["({0}) {1} ({2})", "{0} {1} {2}"]) if rng.random() < 0.3 else "({0}) {1} ({2})"
        if "{0} {1}" in form and (op == "*" or (op == "-" and not _atom(b[0])) or b[0].startswith("-") or " " in a[0] and not _atom(a[0])):
            form = "({0}) {1} ({2})"
        return form.format(a[0], op, b[0]), a[1] | b[1], a[2] + b[2] if op == "*" else max(a[2], b[2])
    a = rexpr(rng, depth - 1, deg)
    if r < 0.62:
        return "-({0})".format(a[0]), a[1], a[2]
    if r < 0.70:
        d = rng.choice(["2", "4", "q", "0.5", "-2", "(2*q)", "(q*q)", "(q/2)", "(-q)", "(-2*q)", "q**2", "(-q)**3", "(1/q)"])
        return "({0})/{1}".format(a[0], d), a[1] | ({"q"} if "q" in d else set()), a[2] + ("q" in d)
    if r < 0.73:
        return "({0})*{1}".format(a[0], rng.choice(["q**-1", "(2*q)**-2", "(-q)**-1", "(-q)**-2", "(-q)**-3", "(4/q)**-1"])), a[1] | {"q"}, a[2] + 1
    if r < 0.76:
        if a[2] * 2 <= deg:
            return "({0})**2".format(a[0]), a[1], a[2] * 2
        return "abs({0})".format(a[0]), a[1], a[2]
    if r < 0.80:
        return "abs({0})".format(a[0]), a[1], a[2]
    b = rexpr(rng, depth - 1, deg)
    if r < 0.88:
        return "{0}({1}, {2})".format(rng.choice(["max", "min"]), a[0], b[0]), a[1] | b[1], max(a[2], b[2])
    if r < 0.92:
        return "{0}({1})".format(rng.choice(["floor", "ceil"]), a[0]), a[1], a[2]
    c = rcond(rng, 1)
    return "where({0}, {1}, {2})".format(c[0], a[0], b[0]), a[1] | b[1] | c[1], max(a[2], b[2])

def _atom(s):
    return s.isidentifier() or s.replace(".", "").isdigit()

def rcond(rng, depth):
    """A random logical expression: (text, fields)."""
    r = rng.random()
    if depth == 0 or r < 0.35:
        r = rng.random()
        if r < 0.65:
            a = rexpr(rng, rng.choice([0, 0, 1, 2]))
            b = rexpr(rng, rng.choice([0, 1])) if rng.random() < 0.3 else (rng.choice(["0", "1", "0.5", "-1", "2"]), set(), 0)
            if rng.random() < 0.3:
                a, b = b, a
            return "{0} {1} {2}".format(a[0], rng.choice(["<", "<=", ">", ">=", "==", "!="]), b[0]), a[1] | b[1]
        if r < 0.75:
            return rng.choice(["k in {1, 3}", "k not in {0, 2}", "k in {0, 2, 3}", "k not in {1, 2, 7}"]), {"k"}
        if r < 0.80:
            return rng.choice(["g in {'aa', 'c'}", "g not in {'aa', 'b', 'c'}", "g == 'b'"]), {"g"}
        if r < 0.90:
            a = rexpr(rng, 0)
            return "-1 {0} {1} {2} 2".format(rng.choice(["<", "<="]), a[0], rng.choice(["<", "<="])), a[1]
        return rng.choice(["b", "not b"]), {"b"}
    if r < 0.55:
        a = rcond(rng, depth - 1)
        return "not ({0})".format(a[0]), a[1]
    a, b = rcond(rng, depth - 1), rcond(rng, depth - 1)
    return "({0}) {1} ({2})".format(a[0], rng.choice(["and", "or"]), b[0]), a[1] | b[1]

def _varies(rng, text, sp={"defs": {}}):
    """Does the expression depend on the data at all?"""
    from sim import model
    seen = set()
    for i in range(12):
        seen.add(model.ev(text, model.environment(sp, row(rng, {"finite": True}))))
        if len(seen) > 1:
            return True
    return False

def rnum(rng, deg=3):
    while True:
        text, fields, d = rexpr(rng, rng.choice([1, 2, 2, 3]), deg)
        if fields and len(text) < 90 and _varies(rng, text):
            return text, sorted(fields)

def rbool(rng):
    while True:
        text, fields = rcond(rng, rng.choice([1, 2, 2, 3]))
        if fields and len(text) < 120 and text != "b" and _varies(rng, text):
            return text, sorted(fields)

def mathaxis(rng, kind, opts, fl):
    pool = [e for e in MATH if e[2] or not opts.get("spark")]
    text, fs, s = rng.choice(pool[-3:] if not opts.get("spark") and rng.random() < 0.08 else pool)
    if kind == "bin":
        num = rng.randint(2, 6)
        width = rng.choice([0.3719, 0.7131, 1.2377])
        low = rng.choice([-2.0371, -0.6173, 0.0713])
        out = {"kind": kind, "expr": text, "fields": list(fs), "numbins": num, "low": low, "high": low + num * width, "math": 1}
    else:
        out = {"math": 1, "kind": kind, "expr": text, "fields": list(fs), "edges": sorted(rng.sample([-2.0371, -1.1713, -0.6173, -0.1931, 0.0713, 0.4177, 0.9317, 1.3371, 2.2931, 5.1177], rng.randint(2, 5)))}
    out.update(fl)
    return out

def _pick(rng, pool):
    r = rng.random()
    if pool is NUM_Y and r < 0.05:
        pool = POWERS + POWERS5
    elif pool is PROFILE and r < 0.08:
        pool = POWERS
    text, fields = rng.choice(pool)
    return text, list(fields)

def dy(rng, lo, hi, step=0.25):
    return rng.randint(int(lo / step), int(hi / step)) * step

def flow(rng, p=0.25):
    return rng.random() >= p

# ---------------------------------------------------------------- axes

def axis(rng, kind, opts):
    f = opts.get("field")
    if kind == "groupby":
        if opts.get("textgroups"):
            e, fs = "g", ["g"]
        else:
            e, fs = _pick(rng, GROUP)
        return {"kind": kind, "expr": e, "fields": fs}
    if kind == "groupbin":
        e, fs = _pick(rng, NUM_Y if opts.get("finite") or rng.random() < 0.5 else NUM_X)
        if opts.get("plain"):
            e, fs = ("y", ["y"]) if opts.get("finite") or rng.random() < 0.5 else ("x", ["x"])
        return {"kind": kind, "expr": e, "fields": fs, "binwidth": rng.choice([0.5, 1.0, 2.0, 4.0]), "origin": rng.choice([0, 0, 0.25, -1.0, 0.5]), "nanflow": flow(rng), "closedlow": flow(rng, 0.3)}
    if kind == "bin":
        fl = {"underflow": flow(rng), "overflow": flow(rng), "nanflow": flow(rng), "closedlow": flow(rng, 0.3)}
        if not opts.get("plain") and rng.random() < opts.get("math", 0):
            return mathaxis(rng, "bin", opts, fl)
        if not opts.get("plain") and rng.random() < 0.12:
            width = rng.choice([0.1, 0.2, 0.3])
            num = rng.randint(2, 9)
            low = rng.randint(-10, 5) / 10.0
            out = {"kind": kind, "expr": "u", "fields": ["u"], "numbins": num, "low": low, "high": low + num * width}
        else:
            e, fs = _pick(rng, NUM_Y if rng.random() < 0.35 else NUM_X)
            if rng.random() < opts.get("rexpr", 0):
                e, fs = rnum(rng, rng.choice([3, 3, 5]))
            if opts.get("plain"):
                e, fs = ("y", ["y"]) if opts.get("finite") or rng.random() < 0.5 else ("x", ["x"])
            width = rng.choice([0.25, 0.5, 0.5, 1.0, 1.0, 2.0])
            num = rng.randint(1, 6)
            low = dy(rng, -3, 1)
            out = {"kind": kind, "expr": e, "fields": fs, "numbins": num, "low": low, "high": low + num * width}
        out.update(fl)
        return out
    if kind == "intbin":
        e, fs = ("n", ["n"]) if opts.get("plain") else _pick(rng, NUM_INT)
        lo = rng.randint(-3, 2)
        return {"kind": kind, "expr": e, "fields": fs, "min": lo, "max": lo + rng.randint(0, 5), "underflow": flow(rng), "overflow": flow(rng)}
    if kind == "split":
        if not opts.get("plain") and rng.random() < opts.get("math", 0):
            return mathaxis(rng, "split", opts, {"underflow": flow(rng), "overflow": flow(rng), "nanflow": flow(rng), "closedlow": flow(rng, 0.3)})
        e, fs = _pick(rng, NUM_Y if rng.random() < 0.35 else NUM_X)
        if rng.random() < opts.get("rexpr", 0):
            e, fs = rnum(rng)
        if opts.get("plain"):
            e, fs = ("y", ["y"]) if opts.get("finite") or rng.random() < 0.5 else ("x", ["x"])
        edges = sorted(rng.sample([i * 0.25 for i in range(-12, 17)], rng.randint(1, 5)))
        out = {"kind": kind, "expr": e, "fields": fs, "edges": edges, "underflow": flow(rng), "overflow": flow(rng), "nanflow": flow(rng), "closedlow": flow(rng, 0.3)}
        if len(edges) == 1 and not (out["underflow"] or out["overflow"] or out["nanflow"]):
            out["overflow"] = True
        return out
    if kind == "cut":
        e, fs = ("b", ["b"]) if opts.get("plain") else _pick(rng, MATH_CUT if not opts.get("spark") and rng.random() < opts.get("math", 0) else BOOL)
        if rng.random() < opts.get("rexpr", 0):
            e, fs = rbool(rng)
        return {"kind": kind, "expr": e, "fields": fs}
    if kind == "profile":
        e, fs = (rng.choice(["y", "z"]), None) if opts.get("plain") else _pick(rng, PROFILE)
        if fs is None:
            fs = [e]
        if rng.random() < opts.get("rexpr", 0):
            e, fs = rnum(rng)
        return {"kind": kind, "expr": e, "fields": fs}
    raise AssertionError(kind)

def totbins(a):
    k = a["kind"]
    if k == "bin":
        return a["numbins"] + a["underflow"] + a["overflow"] + a["nanflow"]
    if k == "intbin":
        return a["max"] - a["min"] + 1 + a["underflow"] + a["overflow"]
    if k == "split":
        return len(a["edges"]) - 1 + a["underflow"] + a["overflow"] + a["nanflow"]
    if k == "cut":
        return 2
    return 1

FIXED = ["bin", "bin", "bin", "intbin", "split", "split", "cut"]
GROUPS = ["groupby", "groupby", "groupbin"]

def spec(rng, **opts):
    """A random histogram specification.

    opts: ngroup, nfixed, nprofile = (lo, hi); weight, filter, defs = probability;
    plain: only plain field names as expressions; finite; textgroups; kinds
    """
    for attempt in range(100):
        axes = []
        ng = rng.choice(opts.get("ngroup", [0, 0, 0, 1, 1, 2]))
        nf = rng.choice(opts.get("nfixed", [0, 1, 1, 1, 2, 2, 3]))
        np_ = rng.choice(opts.get("nprofile", [0, 0, 1, 1, 2]))
        for i in range(ng):
            axes.append(axis(rng, rng.choice(opts.get("groupkinds", GROUPS)), opts))
        for i in range(nf):
            axes.append(axis(rng, rng.choice(opts.get("kinds", FIXED)), opts))
        for i in range(np_):
            axes.append(axis(rng, "profile", opts))
        if ng + nf == 0 and np_ == 0:
            continue
        size = 1
        for a in axes:
            size *= totbins(a)
        if size > opts.get("maxsize", 400):
            continue
        keys = [(a["kind"] == "profile", a["expr"]) for a in axes]
        if len(set(keys)) != len(keys) and rng.random() < opts.get("distinct", 0.9):
            continue
        if opts.get("distinct") == 1 and len(set(keys)) != len(keys):
            continue
        if opts.get("shuffle", True):
            rng.shuffle(axes)
        out = {"axes": axes, "weight": None, "filter": None, "defs": {}, "wfields": [], "ffields": [], "dfields": {}}
        r = rng.random()
        if r < opts.get("weight", 0.45):
            if rng.random() < 0.2:
                out["weight"] = rng.choice([2, 0.5, 3.0, -1.0, 1])
            elif opts.get("plain"):
                out["weight"], out["wfields"] = "w", ["w"]
            else:
                out["weight"], out["wfields"] = _pick(rng, WEIGHT) if rng.random() >= opts.get("rexpr", 0) else rnum(rng, 2)
        if rng.random() < opts.get("filter", 0.3):
            out["filter"], out["ffields"] = ("not b", ["b"]) if opts.get("plain") and rng.random() < 0.5 else _pick(rng, FILTER)
            if rng.random() < opts.get("rexpr", 0):
                out["filter"], out["ffields"] = rbool(rng)
            if opts.get("finite") and "x" in out["ffields"]:
                out["filter"], out["ffields"] = "y > 0", ["y"]
        if not opts.get("plain") and rng.random() < opts.get("defs", 0.2):
            d, df = _pick(rng, DEFS) if rng.random() >= opts.get("rexpr", 0) else rnum(rng, 1)
            out["defs"]["d"] = d
            out["dfields"]["d"] = df
            done = False
            for a in out["axes"]:
                if a["kind"] in ("bin", "split", "profile", "groupbin") and "u" not in a["fields"] and rng.random() < 0.6:
                    a["expr"], a["fields"] = rng.choice([("d", df), ("d + 1", df), ("d - y", df + ["y"]), ("2*d", df), ("2*(d - 1)", df), ("d*d", df), ("(d + y)*(d - 1)", df + ["y"])])
                    done = True
                elif a["kind"] == "cut" and rng.random() < 0.5:
                    a["expr"], a["fields"] = rng.choice([("d > 0", df), ("d <= y", df + ["y"]), ("b and d > 1", df + ["b"]), ("not (d >= 0.5)", df)])
                    done = True
                elif (a["kind"] == "intbin" or a["kind"] == "groupby" and not opts.get("textgroups")) and not opts.get("plaingroups") and rng.random() < 0.3:
                    a["expr"], a["fields"] = "floor(d)", df
                    done = True
            if out["filter"] is not None and not opts.get("finite") and rng.random() < 0.3:
                out["filter"], out["ffields"] = rng.choice([("d > -1", df), ("d < y or b", df + ["y", "b"])])
                done = True
            if not done and rng.random() < 0.5 and out["weight"] is not None:
                out["weight"], out["wfields"] = "d", df
        if out["defs"] and not all(_varies(rng, e, out) for e in [a["expr"] for a in out["axes"]] + [out["weight"], out["filter"]] if isinstance(e, str)):
            continue
        if opts.get("rexpr", 0):
            out["rx"] = True
        if opts.get("attach") and rng.random() < 0.4:
            out["attachment"] = {"note": rng.randint(0, 99), "deep": [1, {"a": "b"}]}
        if not fields(out):
            continue
        return out
    raise AssertionError("could not generate a spec")

def fields(sp):
    out = set()
    for a in sp["axes"]:
        out.update(a["fields"])
    out.update(sp["wfields"])
    out.update(sp["ffields"])
    return sorted(out)

# ---------------------------------------------------------------- data

COLUMNS = ["x", "y", "z", "u", "n", "k", "g", "b", "w", "q"]
KEYS = ["aa", "b", "c", "dd"]
ODDKEYS = ["aa", "aab", "a", "AA", "aa ", "dd and a much longer name", "dd and a much longer nam", "", "NaN", "nan", "1.0", "True", "None", "\u00e9t\u00e9", "\u00e9", "a/b", "*", "c"]

def row(rng, opts):
    if opts.get("finite"):
        x = dy(rng, -5, 5)
    else:
        r = rng.random()
        if r < 0.78:
            x = dy(rng, -5, 5)
        elif r < 0.86:
            x = "nan"
        elif r < 0.90:
            x = "inf"
        elif r < 0.94:
            x = "-inf"
        elif r < 0.97:
            x = float(2**40)
        else:
            x = -float(2**40)
    n = rng.randint(-5, 8)
    if not opts.get("finite") and rng.random() < 0.04:
        n = rng.choice([2**33, -2**33, 2**31, 2**31 - 1, -2**31])
    w = dy(rng, -1, 3) if opts.get("negweight", True) else dy(rng, 0.25, 3)
    if opts.get("nanweight", True) and rng.random() < 0.04:
        w = "nan"
    return {"x": x, "y": dy(rng, -4, 4), "z": dy(rng, -2, 3), "u": (2 * rng.randint(-20, 30) + 1) * 0.05, "n": n, "k": rng.randint(0, 3), "g": rng.choice(KEYS), "b": rng.random() < 0.5, "w": w, "q": rng.choice([0.5, 1.0, 2.0, 4.0])}

def rows(rng, num, **opts):
    out = [row(rng, opts) for i in range(num)]
    # columns that are constant within a batch can be delivered as scalars; degenerate batches reach corner cases
    r = rng.random()
    if num > 1 and r < 0.15:
        c = rng.choice(COLUMNS)
        for x in out:
            x[c] = out[0][c]
    elif num > 0 and r < 0.20:
        for x in out:
            x["x"] = "nan" if not opts.get("finite") else 0.0
    if rng.random() < 0.1:
        few = rng.sample(ODDKEYS, 4)
        for x in out:
            x["g"] = rng.choice(few)
    return out

NEWNAMES = ["x0", "x1", "x2", "x3", "x10", "pt", "_w", "weight", "filter", "count", "mass_1", "Muon_pt", "n1", "i", "out", "length", "data_", "y", "z", "x", "sqrt2", "nan_", "X"]

def names(rng, sp):
    """Other names for some columns of a specification."""
    old = rng.sample(COLUMNS, rng.randint(1, 4))
    new = rng.sample([n for n in NEWNAMES if n not in COLUMNS or n in old], len(old))
    return dict(zip(old, new))

def renamed(sp, names):
    """The specification over columns under other names."""
    def text(e):
        return re.sub(r"(?<![\w.'])([a-z])(?![\w'])", lambda m: names.get(m.group(1), m.group(1)), e) if isinstance(e, str) else e
    def many(fs):
        return sorted(names.get(f, f) for f in fs)
    return dict(sp, axes=[dict(a, expr=text(a["expr"]), fields=many(a["fields"])) for a in sp["axes"]], weight=text(sp["weight"]), filter=text(sp["filter"]), wfields=many(sp["wfields"]), ffields=many(sp["ffields"]), defs=dict((names.get(n, n), text(e)) for n, e in sp["defs"].items()))

def num(v):
    """JSON form of a number to the number."""
    if v == "nan":
        return float("nan")
    if v == "inf":
        return float("inf")
    if v == "-inf":
        return float("-inf")
    return v

def batchsize(rng):
    r = rng.random()
    if r < 0.08:
        return 0
    if r < 0.3:
        return 1
    if r < 0.9:
        return rng.randint(2, 12)
    return rng.randint(13, 60)

FORMS = ["dict", "dict", "kwargs", "mixed", "lazy", "lists", "pandas", "extra", "scalars", "strided", "readonly"]
DTYPES = ["f8", "f8", "f4", "int", ">f8"]

def narrow_ok(sp):
    """Squares of values and products with weights stay exact in single precision."""
    return all(len(a["expr"]) == 1 for a in sp["axes"] if a["kind"] == "profile") and (not isinstance(sp["weight"], str) or len(sp["weight"]) == 1)

def form(rng, *specs):
    """Delivery form for a fill of histograms with these specifications."""
    dtype = rng.choice(DTYPES)
    if dtype == "f4" and not all(narrow_ok(sp) for sp in specs):
        dtype = "f8"
    forms = FORMS
    if any(sp.get("rx") for sp in specs):
        # algebra can remove any field from an expression; others must say how many rows there are
        forms = [f for f in FORMS if f != "scalars"]
    return {"form": rng.choice(forms), "dtype": dtype, "seed": rng.randint(0, 2**30)}

PLAIN_FORM = {"form": "dict", "dtype": "f8", "seed": 0}

# ---------------------------------------------------------------- books

NAMES = ["h", "one", "two", "a", "b", "c", "m0", "m1", "deep"]

def tree(rng, depth=2, maxitems=3, **opts):
    """A nested book of histograms: {"type", "items": [[name, node], ...], "attachment"}; a leaf is {"spec": ...}."""
    cls = opts.get("cls", "Book")
    if cls == "SystematicsBook":
        base = spec(rng, **dict(opts, attach=False))
        items = []
        for i in range(rng.randint(1, 2)):
            sp = dict(base, attachment={"systematic": [i]})
            items.append(["s%d" % i, {"spec": sp}])
        return {"type": cls, "items": items, "attachment": {}}
    names = list(NAMES)
    rng.shuffle(names)
    if cls == "SamplesBook":
        items = [[names[i], {"spec": spec(rng, **opts)}] for i in range(rng.randint(1, 2))]
        return {"type": cls, "samples": ["data", "mc"][:rng.randint(1, 2)], "items": items, "attachment": {}}
    items = []
    for i in range(rng.randint(1, maxitems)):
        if depth > 1 and rng.random() < 0.35:
            sub = "SystematicsBook" if rng.random() < opts.get("systematics", 0.15) else rng.choice(opts.get("classes", ["Book"]))
            items.append([names[i], tree(rng, depth - 1, maxitems, **dict(opts, cls=sub))])
        else:
            items.append([names[i], {"spec": spec(rng, **opts)}])
    return {"type": cls, "items": items, "attachment": {"id": rng.randint(0, 9)} if opts.get("attach") and rng.random() < 0.3 else {}}

def leaves(node, path=""):
    """(path, spec) of every histogram of a tree (or a single leaf)."""
    if "spec" in node:
        return [(path, node["spec"])]
    out = []
    for s in node.get("samples", [None]):
        for n, x in node["items"]:
            n = n if s is None else s + "/" + n
            out += leaves(x, path + "/" + n if path else n)
    return out

def treefields(node):
    out = set()
    for p, sp in leaves(node):
        out.update(fields(sp))
    return sorted(out)

def smaller_trees(node, sub=False):
    """Trees with one item, axis, weight or filter less."""
    if "spec" in node:
        sp = node["spec"]
        if "systematic" in sp.get("attachment", {}):
            return
        if len(sp["axes"]) > 1:
            for i in range(len(sp["axes"])):
                new = dict(sp, axes=sp["axes"][:i] + sp["axes"][i + 1:])
                if fields(new):
                    yield dict(node, spec=new)
        for k, f in (("weight", "wfields"), ("filter", "ffields")):
            if sp[k] is not None:
                new = dict(sp, **{k: None, f: []})
                if fields(new):
                    yield dict(node, spec=new)
        return
    for i, (n, x) in enumerate(node["items"]):
        if len(node["items"]) > 1:
            yield dict(node, items=node["items"][:i] + node["items"][i + 1:])
        for y in smaller_trees(x, True):
            yield dict(node, items=node["items"][:i] + [[n, y]] + node["items"][i + 1:])
