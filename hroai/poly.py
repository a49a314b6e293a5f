"""Polynomial forms: how a value is computed from the marked inputs.

The facet "poly" of a value is a sum of monomials over the marks (Laurent:
powers may be negative), kept as a sorted tuple of (monomial, coefficient).
Operations that do not keep a polynomial form lose the facet; a join keeps it
only if both sides agree.
"""
import ast
import math
import random

from . import domain as D

MAXTERMS = 24


def num(c):
    return isinstance(c, (int, float)) and not isinstance(c, bool) and \
        c == c and abs(c) != float("inf")


def mark(name):
    return ((((str(name), 1),), 1.0),)


def freeze(d):
    return tuple(sorted((m, c) for m, c in d.items() if abs(c) > 1e-13))


def of(v):
    if v.is_const():
        c = v.const()
        return (((), float(c)),) if num(c) and c else () if num(c) else None
    return v.f.get("poly")


def mulmono(a, b):
    d = dict(a)
    for k, n in b:
        d[k] = d.get(k, 0) + n
    return tuple(sorted((k, n) for k, n in d.items() if n))


def mul(p, q):
    if len(p) * len(q) > 4 * MAXTERMS:
        return None
    d, big = {}, {}
    for m, c in p:
        for n, e in q:
            k = mulmono(m, n)
            d[k] = d.get(k, 0.0) + c * e
            big[k] = max(big.get(k, 0.0), abs(c * e))
    return strip(d, big)


def add(p, q, s=1.0):
    d, big = dict(p), {m: abs(c) for m, c in p}
    for m, c in q:
        d[m] = d.get(m, 0.0) + s * c
        big[m] = max(big.get(m, 0.0), abs(s * c))
    return strip(d, big)


def strip(d, big):
    """without the terms that cancel up to rounding"""
    return tuple(sorted((m, c) for m, c in d.items()
                        if abs(c) > 1e-13 * min(big[m], 1e300) and c == c))


def combine(t, a, b):
    """polynomial form of `a t b`, or None"""
    if "poly" not in a.f and "poly" not in b.f:
        return None
    p, q = of(a), of(b)
    if p is None or q is None:
        return None
    r = None
    if t is ast.Add:
        r = add(p, q)
    elif t is ast.Sub:
        r = add(p, q, -1.0)
    elif t is ast.Mult:
        r = mul(p, q)
        if r is None:
            r = term("mul", p, q)
    elif t is ast.Div:
        if len(q) == 1:
            m, c = q[0]
            r = mul(p, ((tuple((k, -n) for k, n in m), 1.0 / c),))
        elif q:
            i = term("inv", q)
            r = i and mul(p, i)
    elif t is ast.Mod:
        r = mod(p, q)
    elif t is ast.FloorDiv and q:
        r = term("floordiv", p, q)
    elif t is ast.Pow:
        if q == ():
            r = (((), 1.0),)
        elif q == (((), 0.5),):
            r = sqrt(p)
        elif len(q) == 1 and q[0][0] == () and q[0][1] == int(q[0][1]):
            n = int(q[0][1])
            if len(p) == 1 and p[0][1]:
                m, c = p[0]
                r = ((tuple((k, e * n) for k, e in m), c ** n),)
            elif 0 < n <= 4:
                r = p
                for _ in range(n - 1):
                    r = r and mul(r, p)
        if r is None and p:
            r = term("pow", p, q)
    return compact(r)


def mod(p, q):
    """remainder of a form; exact if its range lies within one period"""
    if len(q) != 1 or q[0][0] != () or q[0][1] <= 0:
        return term("mod", p, q) if q else None
    r, k = reach(p), q[0][1]
    if r is not None and math.floor(r[0] / k) == math.floor(
            r[1] / k - 1e-12):
        n = math.floor(r[0] / k)
        return add(p, (((), n * k),), -1.0) if n else p
    return term("mod", p, q)


# closed ranges of the marks of the current client
RANGES = {}


def declare(name, iv):
    """the range of a mark; a mark with two ranges has none"""
    name = str(name)
    lo, hi = float(iv[0]), float(iv[1])
    if RANGES.get(name, (lo, hi)) != (lo, hi) or not num(lo) or not num(hi):
        RANGES[name] = None
    else:
        RANGES[name] = (lo, hi)


def reach(p):
    """closed interval that contains all values of the form, or None"""
    if not p:
        return None
    lo = hi = 0.0
    for m, c in p:
        a, b = 1.0, 1.0
        for k, n in m:
            r = RANGES.get(k)
            if r is None or n < 0 and r[0] <= 0 <= r[1] or n != int(n):
                return None
            q = (r[0] ** n, r[1] ** n)
            if n % 2 == 0 and r[0] < 0 < r[1]:
                q += (0.0,)
            q = [x * y for x in (a, b) for y in q]
            a, b = min(q), max(q)
        lo += min(a * c, b * c)
        hi += max(a * c, b * c)
    return lo, hi


def interval(p):
    r = reach(p)
    return None if r is None else (r[0], r[1], False, False)


def sqrt(p):
    """root of a form, simple if it is a square of a monomial of positive
    marks"""
    if len(p) != 1 or p[0][1] <= 0:
        return term("sqrt", p)
    m, c = p[0]
    if any(n % 2 for _, n in m):
        return term("sqrt", p)
    q = tuple((k, n // 2) for k, n in m)
    r = reach(((q, 1.0),))
    if r is None or r[0] <= 0:
        return term("sqrt", p)
    return ((q, math.sqrt(c)),)


def neg(p):
    return tuple((m, -c) for m, c in p)


def near(p, q, eps=1e-7):
    if has_terms(p) or has_terms(q):
        return not differ(p, q, max(eps, 1e-6))
    p, q = dict(p), dict(q)
    return all(abs(p.get(k, 0.0) - q.get(k, 0.0)) <= eps * max(
        1.0, abs(q.get(k, 0.0))) for k in set(p) | set(q))


def linear(p):
    """(coefficient of every mark, constant) of a linear form, or None"""
    out, k = {}, 0.0
    for m, c in p:
        if m == ():
            k = c
        elif len(m) == 1 and m[0][1] == 1:
            out[m[0][0]] = c
        else:
            return None
    return out, k


def show(p, depth=0):
    if len(p) > 12 or depth > 3:
        return "..."

    def name(k):
        if k not in IDS:
            return k
        fn, args, _ = IDS[k]
        return f"{fn}({', '.join(show(a, depth + 1) for a in args)})"

    def term(m, c):
        s = "*".join(name(k) if n == 1 else f"{name(k)}^{n}" for k, n in m)
        return f"{c:.4g}" if not s else s if c == 1 else f"{c:.4g}*{s}"
    return " + ".join(term(m, c) for m, c in p) or "0"


# ------------------------------------------------------------ terms
# A value that is no polynomial of the marks is still a known function of
# them: the application of the function gets a name (hash-consing) that takes
# part in the forms like a mark. Two forms with such names are compared by
# random interpretation: they are different if their values differ at one of
# several assignments of the marks.
TERMS = {}
IDS = {}
STATE = {"on": False}
SAMPLES = 10
INF = float("inf")


def reset():
    RANGES.clear()
    TERMS.clear()
    IDS.clear()
    STATE["on"] = False


def _mono(f):
    return lambda lo, hi: (f(lo), f(hi))


def _wave(f, shift):
    """range of sin (shift 1/2) or cos (shift 0) with maxima at
    2 pi (k + shift / 2)"""
    def g(lo, hi):
        a, b = sorted((f(lo), f(hi)))

        def has(p):
            return math.ceil((lo - p) / (2 * math.pi)) <= math.floor(
                (hi - p) / (2 * math.pi))
        top = shift * math.pi
        return (-1.0 if has(top + math.pi) else a,
                1.0 if has(top) else b)
    return g


def _pos(f, least=0.0):
    def g(lo, hi):
        if lo < least or lo == 0 and f in (math.log,):
            return None
        return f(lo), f(hi)
    return g


def _abs(lo, hi):
    return (lo, hi) if lo >= 0 else (-hi, -lo) if hi <= 0 else (
        0.0, max(-lo, hi))


def _cbrt(x):
    return math.copysign(abs(x) ** (1 / 3), x)


UNARY = {"exp": math.exp, "log": math.log, "sqrt": math.sqrt,
         "sin": math.sin, "cos": math.cos, "tan": math.tan,
         "arcsin": math.asin, "arccos": math.acos, "arctan": math.atan,
         "asin": math.asin, "acos": math.acos, "atan": math.atan,
         "arcsinh": math.asinh, "asinh": math.asinh,
         "arccosh": math.acosh, "acosh": math.acosh,
         "arctanh": math.atanh, "atanh": math.atanh,
         "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh,
         "abs": abs, "log2": math.log2, "log10": math.log10,
         "log1p": math.log1p, "expm1": math.expm1, "cbrt": _cbrt,
         "inv": lambda x: 1 / x, "id": lambda x: x,
         "sign": lambda x: float((x > 0) - (x < 0)),
         "pos": lambda x: float(x > 0),
         "sinc": lambda x: math.sin(math.pi * x) / (math.pi * x)
         if x else 1.0}
BINARY = {"arctan2": math.atan2, "hypot": math.hypot, "max": max,
          "min": min, "mod": lambda x, y: x % y, "pow": lambda x, y: x ** y,
          "fmod": math.fmod, "floordiv": lambda x, y: x // y,
          "mul": lambda x, y: x * y}
TERNARY = ("ite",)
REACH = {"exp": _mono(math.exp), "log": _pos(math.log),
         "sqrt": _pos(math.sqrt), "sin": _wave(math.sin, .5),
         "cos": _wave(math.cos, 0.0), "arctan": _mono(math.atan),
         "atan": _mono(math.atan), "arcsinh": _mono(math.asinh),
         "asinh": _mono(math.asinh), "sinh": _mono(math.sinh),
         "tanh": _mono(math.tanh), "abs": _abs, "cbrt": _mono(_cbrt),
         "expm1": _mono(math.expm1), "id": lambda a, b: (a, b),
         "inv": lambda a, b: None if a <= 0 <= b else (1 / b, 1 / a)}
WHOLE = {"sin": (-1.0, 1.0), "cos": (-1.0, 1.0),
         "arctan": (-math.pi / 2, math.pi / 2),
         "arcsin": (-math.pi / 2, math.pi / 2), "arccos": (0.0, math.pi),
         "arctan2": (-math.pi, math.pi), "tanh": (-1.0, 1.0),
         "sign": (-1.0, 1.0), "pos": (0.0, 1.0)}
WHOLE.update({k: WHOLE["arc" + k[1:]] for k in ("asin", "acos", "atan")})


def marks(p):
    """the marks a form is computed from"""
    out = set()
    for m, _ in p:
        for k, _ in m:
            out |= IDS[k][2] if k in IDS else {k}
    return out


def has_terms(p):
    return any(k in IDS for m, _ in p for k, _ in m)


def _range(fn, args):
    rs = [reach(a) if a else (0.0, 0.0) for a in args]
    try:
        if all(r is not None for r in rs):
            if fn in REACH:
                r = REACH[fn](*rs[0])
                if r is not None:
                    return r
            if fn in ("max", "min"):
                f = BINARY[fn]
                return f(rs[0][0], rs[1][0]), f(rs[0][1], rs[1][1])
            if fn == "ite":
                return (min(rs[1][0], rs[2][0]), max(rs[1][1], rs[2][1]))
            if fn == "hypot":
                a, b = _abs(*rs[0]), _abs(*rs[1])
                return math.hypot(a[0], b[0]), math.hypot(a[1], b[1])
            if fn == "mul":
                q = [x * y for x in rs[0] for y in rs[1]]
                return min(q), max(q)
            if fn == "pow" and rs[0][0] > 0:
                q = [x ** y for x in rs[0] for y in rs[1]]
                return min(q), max(q)
        if fn == "mod" and rs[1] is not None and rs[1][0] > 0:
            return 0.0, rs[1][1]
    except (ValueError, OverflowError, ZeroDivisionError):
        return None
    return WHOLE.get(fn)


def term(fn, *args):
    """the form of `fn(args)`, or None"""
    if not STATE["on"] or any(a is None for a in args) or len(
            TERMS) > 4000 or fn not in UNARY and fn not in BINARY and \
            fn not in TERNARY:
        return None
    key = (fn, args)
    if key not in TERMS:
        names = frozenset().union(*[marks(a) for a in args])
        name = f"#{len(TERMS)}"
        TERMS[key] = name
        IDS[name] = (fn, args, names)
        r = _range(fn, args)
        if r is not None and num(r[0]) and num(r[1]):
            RANGES[name] = r
    return mark(TERMS[key])


def truth(t, p, q):
    """the truth of `p t q` as a form with the values 0 and 1; the border
    itself has no weight"""
    if t in (ast.Lt, ast.LtE):
        p, q = q, p
    elif t not in (ast.Gt, ast.GtE):
        return None
    d = add(p, q, -1.0)
    return term("pos", d) if d else None


def ite(c, p, q):
    """the form that is `p` where the truth `c` holds and `q` elsewhere"""
    if c is None or p is None or q is None:
        return None
    if p == q:
        return p
    return term("ite", c, p, q)


def gated(v, a, b, c, first):
    """`v`, the join of a and b, where `c` decides which one it is"""
    if v.f.get("fn") or a.f.get("fn") or b.f.get("fn") or a.objs or b.objs \
            or "unk" in v.prims:
        return v
    ks = v.prims | {D.kind_of_const(k.v) for k in v.consts}
    p, q = of(a), of(b)
    if p is None or q is None or p == q or not ks <= {"int", "float"}:
        return v
    r = ite(c, p, q) if first else ite(c, q, p)
    if r is None:
        return v
    f = {k: x for k, x in v.f.items() if k in (
        "ang", "role", "raw", "iv", "neutral")}
    f["poly"] = r
    return D.V(D.E0, frozenset(ks), D.E0, v.lab, f)


D.GATED[0] = gated


def compact(p):
    """long forms get a name"""
    if p is not None and len(p) > MAXTERMS:
        return term("id", p)
    return p


def sample(name, k):
    r = RANGES.get(name)
    g = random.Random(f"{name}/{k}")
    if r is None:
        # any number; half of the assignments are positive
        return g.uniform(.5, 3.0) * (
            -1 if k % 2 and g.random() < .5 else 1)
    w = r[1] - r[0]
    return g.uniform(r[0] + w * 1e-3, r[1] - w * 1e-3) if w else r[0]


def sided(d):
    """the sign of a form whose range ends at 0, away from the border"""
    r = reach(d)
    if r is None or r[0] < 0 < r[1]:
        return 0
    seen = set()
    for k in range(SAMPLES):
        try:
            x, size = value(d, k, {})
        except (ValueError, OverflowError, ZeroDivisionError, TypeError):
            continue
        seen.add(0 if abs(x) <= 1e-9 * size else 1 if x > 0 else -1)
    return seen.pop() if len(seen) == 1 else 0


def apply(fn, args, k, memo):
    if fn == "ite":
        c = value(args[0], k, memo)[0]
        return value(args[1 if c > .5 else 2], k, memo)[0]
    if fn == "pos":
        x, size = value(args[0], k, memo)
        if abs(x) <= 1e-9 * size:
            raise ValueError
        return float(x > 0)
    f = UNARY.get(fn) or BINARY[fn]
    return f(*[value(a, k, memo)[0] for a in args])


def value(p, k, memo):
    """value of a form at the k-th assignment and the size of its terms"""
    s = size = 0.0
    for m, c in p:
        x = c
        for n, e in m:
            if n not in memo:
                if n in IDS:
                    memo[n] = apply(*IDS[n][:2], k, memo)
                else:
                    memo[n] = sample(n, k)
            x *= memo[n] ** e
        if isinstance(x, complex) or x != x or abs(x) > 1e12:
            raise ValueError
        s += x
        size = max(size, abs(x))
    return s, size


def differ(p, q, eps=1e-6):
    """the forms have different values at some assignment; None if there
    are too few assignments where both are defined"""
    seen = 0
    for k in range(SAMPLES):
        memo = {}
        try:
            a, x = value(p, k, memo)
            b, y = value(q, k, memo)
        except (ValueError, OverflowError, ZeroDivisionError, TypeError):
            continue
        seen += 1
        if abs(a - b) > eps * max(1.0, x, y):
            return True
    return False if seen >= 3 else None
