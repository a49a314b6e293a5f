"""Abstract clients: weighers give every point its documented weight and
quality assurance reports the documented statistics.

Winds and times are known; boat speeds are marks, or a common level mark plus
a known multiple of a common scale mark, so weights hold for all levels and
scales."""
import datetime
import math

from .domain import const
from .entries import PD, PIPE, PR, entry
from .entries6 import call, data, el, exp, lst, m, val
from .entries7 import arr, grids
from .entries10 import T0, stats
from .entries12 import NORM, l1
from .rules_prov import ANY, Lin

WEIGH = '''
import numpy as np
from hrosailing.processing import Weigher


class Given(Weigher):
    def __init__(self, weights):
        super().__init__()
        self.weights = weights

    def weigh(self, points):
        return self.weights


class Column(Weigher):
    def weigh(self, points):
        return points[:, 2]


def add(a, b):
    return a + b


def sub(a, b):
    return a - b


def mul(a, b):
    return a * b


def div(a, b):
    return a / b


def power(a, b):
    return a ** b


def neg(a):
    return -a


def both(a, b):
    return (a + b) * a - 2 * b / 4


def first(x):
    return x[0]


def second(x):
    return x[1]


def gt(x, y):
    return x > y


def ge(x, y):
    return x >= y


def lt(x, y):
    return x < y


def le(x, y):
    return x <= y


def eq(x, y):
    return x == y


def land(x, y):
    return x & y


def lor(x, y):
    return x | y


def inv(x):
    return ~x


def item(x, k):
    return x[k]


def spread(level, scale, cs):
    return np.array([level + scale * c for c in cs])


class Diagram:
    def __init__(self, table, zero):
        self.table = table
        self.zero = zero

    def __call__(self, ws, wa):
        for row in self.table:
            if row[0] == ws and row[1] == wa:
                return row[2]
        return self.zero * (ws + wa / 360)
'''
N = 4


def lin(c, k=None, n=N):
    return [Lin({f"@{c}{i}": 1} if k is None else {f"@{c}{i}": k})
            for i in range(n)]


def terms(fn, n=N):
    return [Lin(fn(f"@a{i}", f"@b{i}", i), rtol=1e-9) for i in range(n)]


def pts3(h):
    return arr(h, [[5. + i, 10. * i, f"@c{i}"] for i in range(N)])


@entry("weigher arithmetic", "prov", "weights", forms=("nd", "list"))
def _(h, form):
    grids(h)
    mod = h.client("weigh", WEIGH)
    F = lambda n: h.get(f"{mod}.{n}")
    mk = (lambda c: arr(h, [f"@{c}{i}" for i in range(N)])) if form == "nd" \
        else lambda c: val(h, [f"@{c}{i}" for i in range(N)])
    a, b = [h.new("Given()", mod + ".Given", mk(c)) for c in "ab"]
    pts = pts3(h)
    ks = (.5, 2., 3., 4.)
    K = arr(h, list(ks))

    def check(label, w, want):
        r = m(h, f"({label}).weigh()", w, "weigh", pts)
        exp(h, f"({label}).weigh()", r, terms(want))

    def do(fn, *args):
        return h.quiet(F(fn), *args)

    check("a + b", do("add", a, b), lambda x, y, i: {x: 1, y: 1})
    check("a - b", do("sub", a, b), lambda x, y, i: {x: 1, y: -1})
    check("a * b", do("mul", a, b), lambda x, y, i: {((x, 1), (y, 1)): 1})
    check("a / b", do("div", a, b), lambda x, y, i: {((x, 1), (y, -1)): 1})
    check("-a", do("neg", a), lambda x, y, i: {x: -1})
    for p in (1, 2, 3, 0, -1):
        check("a ** p", do("power", a, const(p)),
              lambda x, y, i: {((x, p),): 1} if p else {None: 1})
    c = h.new("Given()", mod + ".Given", (
        lambda xs: h.quiet(h.I.ext.load_ext("numpy.array"), h.seq(xs))
        if form == "nd" else h.seq(xs))([
            el(h, f"n{i}", iv=(-4, -3 - i / 10, False, False))
            for i in range(N)]))
    for p in (1, 2, 3):
        check(f"n ** {p}", do("power", c, const(p)),
              lambda x, y, i: {((f"@n{i}", p),): 1})
    for c, k in ((const(3), (3,) * N), (const(.5), (.5,) * N), (K, ks)):
        check("a + k", do("add", a, c), lambda x, y, i: {x: 1, None: k[i]})
        check("a - k", do("sub", a, c), lambda x, y, i: {x: 1, None: -k[i]})
        check("a * k", do("mul", a, c), lambda x, y, i: {x: k[i]})
        check("a / k", do("div", a, c), lambda x, y, i: {x: 1 / k[i]})
    for c, k in ((const(3), 3), (const(.5), .5)):
        check("k + a", do("add", c, a), lambda x, y, i: {x: 1, None: k})
        check("k * a", do("mul", c, a), lambda x, y, i: {x: k})
        check("k / a", do("div", c, a), lambda x, y, i: {((x, -1),): k})
    check("(a + b) * a - 2 * b / 4", do("both", a, b), lambda x, y, i: {
        ((x, 2),): 1, ((x, 1), (y, 1)): 1, y: -.5})
    # operands keep their own weights and see the points
    check("a", a, lambda x, y, i: {x: 1})
    if form == "nd":
        c = h.new("Column()", mod + ".Column")
        check("a * points", do("mul", a, c), lambda x, y, i: {
            ((x, 1), (f"@c{i}", 1)): 1})
        check("points / 2", do("div", c, const(2)), lambda x, y, i: {
            f"@c{i}": .5})


LEVEL = (3, 9, False, False)
SCALE = (1, 1.4, False, False)


def spread(h, mod, cs):
    """boat speeds level + c * scale"""
    return h.quiet(h.get(mod + ".spread"), el(h, "t", iv=LEVEL),
                   el(h, "s", iv=SCALE), arr(h, [float(c) for c in cs]))


def st(cs):
    return Lin({"@t": 1, "@s": cs})


@entry("weigher statistics", "prov", "weights")
def _(h):
    grids(h)
    mod = h.client("weigh", WEIGH)
    for cs in ((0., .31, .52, .77, .18, .97, 1.), (0., 10.), (4., 2., 0.,
               1.1, 3.3)):
        base = h.new("Given()", mod + ".Given", spread(h, mod, cs))
        lo, hi = min(cs), max(cs)
        same = lambda x: h.new("Given()", mod + ".Given",
                               arr(h, [x] * len(cs)))
        for label, w, s, o, inv in (
                ("w + 2", h.quiet(h.get(mod + ".add"), base, const(2)), 1, 2,
                 False),
                ("w * 3", h.quiet(h.get(mod + ".mul"), base, const(3)), 3, 0,
                 False),
                ("-w", h.quiet(h.get(mod + ".neg"), base), -1, 0, True),
                ("w + v", h.quiet(h.get(mod + ".add"), base, same(2.)), 1, 2,
                 False),
                ("v * w", h.quiet(h.get(mod + ".mul"), same(3.), base), 3, 0,
                 False)):
            m(h, f"({label}).weigh()", w, "weigh", pts3(h))
            x, y = (hi, lo) if inv else (lo, hi)
            q = [round(100 * len([
                c for c in cs if (i <= 10 * (abs(c - x)) / (hi - lo)
                                  <= i + 1)]) / len(cs), 2)
                 for i in range(10)]
            f = lambda c: Lin({"@t": s, "@s": s * c, None: o})
            stats(h, f"({label}).weigh()", w, {
                "average_weight": f(sum(cs) / len(cs)),
                "minimal_weight": f(x), "maximal_weight": f(y),
                "quantiles": ANY if "*" in label or any(
                    min(10 * (c - lo) / (hi - lo) % 1, 1 - 10 * (
                        c - lo) / (hi - lo) % 1) < 1e-3
                    and lo < c < hi for c in cs) else q})


@entry("weigher AllOne", "prov", "weights")
def _(h):
    grids(h)
    w = h.new("AllOneWeigher()", PR + "AllOneWeigher")
    exp(h, "AllOneWeigher.weigh()", m(
        h, "AllOneWeigher.weigh(nd)", w, "weigh", pts3(h)), [1] * N)
    exp(h, "AllOneWeigher.weigh()", m(
        h, "AllOneWeigher.weigh(Data)", w, "weigh", data(h, {
            "A": ["@a0", "@a1", "@a2"], "B": ["@b0", "@b1", "@b2"]})),
        [1] * 3)


# winds of three groups and a lonely point
WINDS = ((5., 40.), (5.2, 41.), (5.1, 44.), (12., 100.), (12.3, 99.),
         (18., 250.), (12.1, 102.), (5.25, 43.))
COEF = (0., 1., 3.5, 0., 2., 1., 7., -1.)
SC = {"TWS": 1 / 20, "TWA": 1 / 360, "BSP": 1 / 40, "lat": 1 / 360}


def scaled(dims):
    return lambda *x: math.sqrt(sum((SC.get(d, 1) * y) ** 2
                                    for d, y in zip(dims, x)))


def container(h, mod, cols, cs, name="BSP"):
    d = data(h, cols)
    m(h, "Data.extend()", d, "extend", const(name), h.quiet(
        h.I.ext.builtin("list"), spread(h, mod, cs)))
    return d


def table(h, mod, winds, cs):
    return h.quiet(h.I.ext.load_ext("numpy.column_stack"), h.seq(
        [arr(h, [list(w) for w in winds]), spread(h, mod, cs)], typ="tuple"))


def cylinder_mean(winds, cs, d, r):
    """1 - |mean - b| / std, divided by the largest one"""
    out = []
    for p, c in zip(winds, cs):
        near = [y for q, y in zip(winds, cs)
                if d(*[u - v for u, v in zip(q, p)]) <= r]
        mu = sum(near) / len(near)
        sd = math.sqrt(sum((y - mu) ** 2 for y in near) / len(near))
        out.append(abs(mu - c) / sd if sd else 0.)
    k = max(out) or 1
    return [1 - x / k for x in out]


def num(x):
    return Lin({None: x} if x else {}, rtol=1e-6)


@entry("weigher CylindricMean", "prov", "weights",
       forms=("nd", "data", "dims", "norm"))
def _(h, form):
    grids(h)
    mod = h.client("weigh", WEIGH)
    nrm = h.client("norms", NORM)
    for winds, cs in ((WINDS, COEF), (WINDS[:4], COEF[:4]),
                      (WINDS[::-1], COEF[::-1]), (WINDS[5:6], COEF[5:6])):
        for r in (None, .02, .3, 2.):
            kw, d = {}, scaled(("TWS", "TWA"))
            if r is not None:
                kw["radius"] = const(r)
            cols = {"TWS": [w[0] for w in winds],
                    "TWA": [w[1] for w in winds]}
            if form == "norm":
                kw["norm"] = h.get(nrm + ".sums")
                d = l1
            if form in ("nd", "norm"):
                pts = table(h, mod, winds, cs)
            elif form == "data":
                pts = container(h, mod, cols, cs)
            else:
                cols["extra"] = [1000. * i for i in range(len(winds))]
                kw["dimensions"] = lst(h, "TWA", "TWS", "SOG")
                pts = container(h, mod, cols, cs, "SOG")
            w = h.new("CylindricMeanWeigher()", PR + "CylindricMeanWeigher",
                      **kw)
            exp(h, "CylindricMeanWeigher.weigh()", m(
                h, "CylindricMeanWeigher.weigh()", w, "weigh", pts),
                [num(x) for x in cylinder_mean(winds, cs, d, r or .05)])


LOW, HIGH = (1, 1.5, False, False), (7, 7.5, False, False)


# whole numbers: several points lie exactly on the border of the cylinders
EXACT = ((5, 40), (7, 41), (4, 40), (10, 40), (10, 42), (13, 45), (1, 1))


@entry("weigher cylinder border", "prov", "weights")
def _(h):
    grids(h)
    mod = h.client("weigh", WEIGH)
    nrm = h.client("norms", NORM)
    cs = (0., 1., 2.5, 7., -3., 4., 2.)
    for r in (1, 3, 5):
        pts = table(h, mod, EXACT, cs)
        w = h.new("CylindricMeanWeigher()", PR + "CylindricMeanWeigher",
                  radius=const(r), norm=h.get(nrm + ".sums"))
        exp(h, "CylindricMeanWeigher.weigh()", m(
            h, "CylindricMeanWeigher.weigh()", w, "weigh", pts),
            [num(x) for x in cylinder_mean(EXACT, cs, l1, r)])
        # heights exactly one length apart
        hs = (3., 5., 4., 4., 6., 5., 4.)
        for ln in (0, 1, 2):
            w = h.new("CylindricMemberWeigher()",
                      PR + "CylindricMemberWeigher", radius=const(r),
                      length=const(ln), norm=h.get(nrm + ".sums"))
            n = [sum(l1(*[u - v for u, v in zip(q, p)]) <= r
                     and abs(z - y) <= ln for q, z in zip(EXACT, hs)) - 1
                 for p, y in zip(EXACT, hs)]
            exp(h, "CylindricMemberWeigher.weigh()", m(
                h, "CylindricMemberWeigher.weigh()", w, "weigh", arr(h, [
                    [*p, y] for p, y in zip(EXACT, hs)])),
                [num(x / (max(n) or 1)) for x in n])


@entry("weigher cylinder unscaled", "prov", "weights")
def _(h):
    """fields without a known scale count as they are"""
    grids(h)
    mod = h.client("weigh", WEIGH)
    depth = (2., 2.01, 2.5, 9., 9.02, 9.01, 3., 2.52)
    cols = {"TWS": [w[0] for w in WINDS], "depth": list(depth)}
    xs = [(w[0], d) for w, d in zip(WINDS, depth)]
    dist = scaled(("TWS", "depth"))
    for r in (.05, .6, 4.):
        d = container(h, mod, cols, COEF)
        w = h.new("CylindricMeanWeigher()", PR + "CylindricMeanWeigher",
                  radius=const(r))
        exp(h, "CylindricMeanWeigher.weigh()", m(
            h, "CylindricMeanWeigher.weigh()", w, "weigh", d),
            [num(x) for x in cylinder_mean(xs, COEF, dist, r)])
        # equal speeds: every point is as good as any other
        d = data(h, {**cols, "SOG": [4.] * 8, "TWA": [9.] * 8})
        w = h.new("CylindricMeanWeigher()", PR + "CylindricMeanWeigher",
                  radius=const(r), dimensions=lst(h, "SOG", "TWA", "depth"))
        exp(h, "CylindricMeanWeigher.weigh()", m(
            h, "CylindricMeanWeigher.weigh()", w, "weigh", d),
            [num(1)] * 8)
        sog = [4., 9., 4.5, 1., 2., 3., 3., 4.]
        d = data(h, {**cols, "SOG": sog, "TWA": [9.] * 8})
        w = h.new("CylindricMeanWeigher()", PR + "CylindricMeanWeigher",
                  radius=const(r), dimensions=lst(h, "depth", "SOG", "TWA"))
        exp(h, "CylindricMeanWeigher.weigh()", m(
            h, "CylindricMeanWeigher.weigh()", w, "weigh", d),
            [num(x) for x in cylinder_mean(
                [(z,) for z in depth], sog, abs, r)])


@entry("weigher CylindricMember", "prov", "weights",
       forms=("nd", "data", "dims", "wide", "norm"))
def _(h, form):
    grids(h)
    nrm = h.client("norms", NORM)
    level = (0, 0, 1, 0, 1, 1, 1, 0)
    for take in (slice(None), slice(0, 4), slice(None, None, -1),
                 slice(5, 6)):
        winds, hs = WINDS[take], level[take]
        for r, ln in ((None, 1), (.02, 1), (.3, 1), (.3, 10)):
            b = [el(h, f"b{i}", iv=HIGH if x else LOW)
                 for i, x in enumerate(hs)]
            kw, d = {"length": const(ln)}, scaled(("TWS", "TWA"))
            if r is not None:
                kw["radius"] = const(r)
            cols = [("TWS", [w[0] for w in winds]),
                    ("TWA", [w[1] for w in winds])]
            xs = winds
            if form == "norm":
                kw["norm"] = h.get(nrm + ".sums")
                d = l1
            if form in ("nd", "norm"):
                pts = h.quiet(h.I.ext.load_ext("numpy.array"), h.seq([
                    h.seq([const(u), const(v), y])
                    for (u, v), y in zip(winds, b)]))
            else:
                if form == "wide":
                    cols.append(("lat", [40. - 30 * (i % 2)
                                         for i in range(len(winds))]))
                    d = scaled(("TWS", "TWA", "lat"))
                elif form == "dims":
                    cols = cols[::-1] + [("extra", [
                        1000. * i for i in range(len(winds))])]
                    kw["dimensions"] = lst(h, "TWA", "TWS", "BSP")
                    d = scaled(("TWA", "TWS"))
                xs = list(zip(*[c for n, c in cols if n != "extra"]))
                pts = data(h, dict(cols))
                m(h, "Data.extend()", pts, "extend", const("BSP"), h.seq(b))
            n = [sum(d(*[u - v for u, v in zip(q, p)]) <= (r or .05)
                     and (ln == 10 or y == z)
                     for q, z in zip(xs, hs)) - 1 for p, y in zip(xs, hs)]
            w = h.new("CylindricMemberWeigher()",
                      PR + "CylindricMemberWeigher", **kw)
            exp(h, "CylindricMemberWeigher.weigh()", m(
                h, "CylindricMemberWeigher.weigh()", w, "weigh", pts),
                [num(x / (max(n) or 1)) for x in n])


SECS = (0, 10, 20, 30, 60, 70, 200)
FLUCT = (0., 1., 2., 0., 4., 8., 1.)
OTHER = (1., 1., 1.5, 1., 1., .5, 0.)


def fluct(spans, cs, ub):
    """(1 - k * scale) for every point, or 0"""
    out = []
    for x in SECS:
        near = [c for y, c in zip(SECS, cs)
                if x - spans[0] <= y <= x + spans[1]]
        mu = sum(near) / len(near)
        k = math.sqrt(sum((c - mu) ** 2 for c in near) / len(near))
        out.append(None if k * SCALE[0] > ub else k / ub
                   if k * SCALE[1] <= ub else "?")
    return out


@entry("weigher Fluctuation", "prov", "weights",
       forms=("before", "around", "two", "not all"))
def _(h, form):
    grids(h)
    mod = h.client("weigh", WEIGH)
    S = datetime.timedelta(seconds=1)
    d = container(h, mod, {"datetime": [T0 + x * S for x in SECS]}, FLUCT)
    m(h, "Data.extend()", d, "extend", const("TWS"), h.quiet(
        h.I.ext.builtin("list"), spread(h, mod, OTHER)))
    if form == "before":
        cases = [((15, 0), val(h, 15 * S), ("BSP",), (2,)),
                 ((30, 0), val(h, 30 * S), ("BSP",), (7.,)),
                 ((500, 0), val(h, 500 * S), ("TWS",), (1.5,)),
                 ((10, 0), val(h, 10 * S), ("BSP",), (.2,)),
                 ((10, 0), val(h, 10 * S), ("BSP",), (.45,))]
    elif form == "around":
        cases = [((x, y), val(h, (x * S, y * S)), ("BSP",), (u,))
                 for x, y, u in ((0, 10, 8.), (10, 10, 8.), (15, 40, .9),
                                 (20, 0, .9), (0, 0, 1.))]
    elif form == "two":
        cases = [((10, 10), val(h, (10 * S, 10 * S)), ("BSP", "TWS"),
                  (8., 3.)),
                 ((0, 40), val(h, (0 * S, 40 * S)), ("TWS", "BSP"),
                  (1., 8.))]
    else:
        # fields which are not numeric are ignored
        m(h, "Data.extend()", d, "extend", const("name"),
          val(h, ["x"] * len(SECS)))
        cases = [((10, 10), val(h, (10 * S, 10 * S)),
                  ("name", "BSP"), (.1, 8.))]
    for spans, ts, names, ubs in cases:
        w = h.new("FluctuationWeigher()", PR + "FluctuationWeigher",
                  lst(h, *names), ts, val(h, [float(u) for u in ubs]))
        ks = [fluct(spans, {"BSP": FLUCT, "TWS": OTHER}[n], u)
              for n, u in zip(names, ubs) if n != "name"]
        want = []
        for row in zip(*ks):
            if None in row:
                want.append(num(0))
            elif "?" in row:
                want.append(ANY)
            elif len(row) == 1:
                want.append(Lin({None: 1, "@s": -row[0]}, rtol=1e-6))
            else:
                a, b = row
                want.append(Lin({None: 1, "@s": -a - b,
                                 (("@s", 2),): a * b}, rtol=1e-6))
        exp(h, "FluctuationWeigher.weigh()", m(
            h, "FluctuationWeigher.weigh()", w, "weigh", d), want)


def sig(x, c, sharp, sign):
    """sign 1: greater, -1: less"""
    return 1 / (1 + math.exp(-sign * sharp * (x - c)))


@entry("fuzzy truth", "prov", "weights")
def _(h):
    grids(h)
    mod = h.client("weigh", WEIGH)
    F = lambda n: h.get(f"{mod}.{n}")
    FB = PR + "weigher.FuzzyBool"
    one = h.new("FuzzyBool()", FB, F("first"))
    two = h.new("FuzzyBool()", FB, F("second"))
    lo, hi = el(h, "lo", iv=(.1, .2, False, False)), el(
        h, "hi", iv=(.5, .6, False, False))
    for x, small in ((h.seq([lo, hi], typ="tuple"), 0),
                     (h.seq([hi, lo], typ="tuple"), 1)):
        names = ("@lo", "@hi")
        for label, f, want in (
                ("x", one, names[small]),
                ("x & y", h.quiet(F("land"), one, two), "@lo"),
                ("x | y", h.quiet(F("lor"), one, two), "@hi"),
                ("~x", h.quiet(F("inv"), one),
                 Lin({None: 1, names[small]: -1})),
                ("~(x & ~y)", h.quiet(F("inv"), h.quiet(
                    F("land"), one, h.quiet(F("inv"), two))),
                 Lin({None: 1, names[small]: -1})),
                ("x | (y & x)", h.quiet(F("lor"), one, h.quiet(
                    F("land"), two, one)), names[small])):
            exp(h, f"FuzzyBool {label}", call(
                h, f"FuzzyBool {label}", f, x), want)
    f = h.quiet(F("item"), one, const("k"))
    exp(h, "FuzzyBool x[k]", call(h, "FuzzyBool x[k]", f, h.dict({
        "j": h.seq([hi]), "k": h.seq([lo])})), "@lo")


@entry("fuzzy variable", "prov", "weights",
       forms=("plain", "sharpness", "key", "key sharpness",
              "sharpness key"))
def _(h, form):
    grids(h)
    mod = h.client("weigh", WEIGH)
    F = lambda n: h.get(f"{mod}.{n}")
    for base in (None, 3):
        x = h.new("FuzzyVariable()", PR + "FuzzyVariable", **(
            {} if base is None else {"sharpness": const(base)}))
        for s in (2, .5):
            for c in (5., 7):
                for op, fn in (
                        ("gt", lambda v, k: sig(v, c, k, 1)),
                        ("ge", lambda v, k: sig(v, c, k, 1)),
                        ("lt", lambda v, k: sig(v, c, k, -1)),
                        ("le", lambda v, k: sig(v, c, k, -1)),
                        ("eq", lambda v, k: min(sig(v, c, k, 1),
                                                sig(v, c, k, -1)))):
                    y, k = x, base or 10
                    label = "x"
                    for part in form.split():
                        if part == "key":
                            y = h.quiet(F("item"), y, const("TWS"))
                            label += "[key]"
                        elif part == "sharpness":
                            y = call(h, f"{label}(s)", y, const(s))
                            k = s
                            label += "(s)"
                    b = h.quiet(F(op), y, const(c))
                    for v in (4.9, 5., 5.3, 7.2):
                        pt = const(v) if "key" not in form else h.dict(
                            {"TWS": const(v), "TWA": const(-1.)})
                        exp(h, f"FuzzyVariable {label} {op}", call(
                            h, f"FuzzyVariable {label} {op}", b, pt),
                            num(fn(v, k)))
        # a given sharpness only counts once
        if form == "plain":
            b = h.quiet(F("gt"), call(h, "x(s)", x, const(77)), const(1))
            b = h.quiet(F("gt"), x, const(5))
            exp(h, "FuzzyVariable x after x(s)", call(
                h, "FuzzyVariable x after x(s)", b, const(5.3)),
                num(sig(5.3, 5, base or 10, 1)))


@entry("weigher Fuzzy", "prov", "weights")
def _(h):
    grids(h)
    mod = h.client("weigh", WEIGH)
    FB = PR + "weigher.FuzzyBool"
    w = h.new("FuzzyWeigher()", PR + "FuzzyWeigher", h.new(
        "FuzzyBool()", FB, h.get(mod + ".second")))
    exp(h, "FuzzyWeigher.weigh(nd)", m(
        h, "FuzzyWeigher.weigh(nd)", w, "weigh", arr(h, [
            [1., f"@b{i}", 2. * i] for i in range(3)])),
        ["@b0", "@b1", "@b2"])
    f = h.quiet(h.get(mod + ".item"), h.new(
        "FuzzyBool()", FB, h.I.ext.builtin("float")), const("B"))
    w = h.new("FuzzyWeigher()", PR + "FuzzyWeigher", f)
    exp(h, "FuzzyWeigher.weigh(Data)", m(
        h, "FuzzyWeigher.weigh(Data)", w, "weigh", data(h, {
            "A": ["@a0", "@a1", "@a2"], "B": ["@b0", "@b1", "@b2"]})),
        ["@b0", "@b1", "@b2"])


@entry("quality assurance", "prov", "quality",
       forms=("minimal", "conforming"))
def _(h, form):
    grids(h)
    mod = h.client("weigh", WEIGH)
    pre = "Minimal" if form == "minimal" else "Comforming"
    q = h.new(f"{pre}QualityAssurance()", PIPE + f"{pre}QualityAssurance")
    # boat speed, value of the diagram: ranges keep all orders known
    rows = [((5., 40.), "a", (7, 8), "x", (2, 3)),
            ((5.2, 40.3), "b", (1, 1.5), "y", (9, 10)),
            ((9., 60.), "c", (30, 31), "z", (10, 11)),
            ((12., 80.), "d", (12.5, 12.6), "w", (12, 12.25)),
            ((12.4, 79.8), "e", (14, 14.5), "v", (11, 11.5)),
            ((11.6, 80.4), "f", (15, 15.1), "u", (1, 1.2)),
            ((7.2, 270.), "g", (4, 4.1), "q", (20, 20.1)),
            ((6.8, 269.7), "i", (3, 3.1), "p", (4.9, 5))]
    for n in (8, 5, 1, 3):
        sel = rows[:n]
        test, errs = [], []
        tb = []
        for (ws, wa), b, ib, x, ix in sel:
            test.append(h.seq([const(ws), const(wa), el(
                h, b, iv=(*ib, False, False))]))
            tb.append(el(h, x, iv=(*ix, False, False)))
            s = 1 if ib[0] > ix[0] else -1
            errs.append({"@" + b: s, "@" + x: -s})
        order = sorted(range(n), key=lambda i: abs(
            sel[i][2][0] - sel[i][4][0]))
        dia = h.new("Diagram()", mod + ".Diagram", h.seq([
            h.seq([const(r[0][0]), const(r[0][1]), v])
            for r, v in zip(sel, tb)]),
            el(h, "o", iv=(1, 2, False, False)))
        want = {"max_error": Lin(errs[order[-1]]),
                "min_error": Lin(errs[order[0]]),
                "average_error": Lin({k: v / n for e in errs
                                      for k, v in e.items()}, rtol=1e-9),
                "average_quadratic_error": Lin({
                    k: v / n for e in errs for k, v in square(e).items()},
                    rtol=1e-9)}
        if form == "conforming":
            zs = [20 * i / 19 + j for i in range(20) for j in (0, 1)]
            cells = {}
            for (ws, wa), b, ib, _, _ in sel:
                cells.setdefault((round(ws), round(wa)), []).append((ib, b))
            diff = {}
            for c in cells.values():
                c = sorted(c)
                if len(c) > 1:
                    diff["@" + c[-1][1]] = 1 / len(cells)
                    diff["@" + c[0][1]] = -1 / len(cells)
            want.update({
                "max_zero_val": Lin({"@o": max(zs)}),
                "min_zero_val": Lin({"@o": min(zs)} if min(zs) else {}),
                "average_zero_val": Lin({"@o": sum(zs) / 40}, rtol=1e-9),
                "average_quadratic_zero_val": Lin({(("@o", 2),): sum(
                    z * z for z in zs) / 40}, rtol=1e-9),
                "test_covering": len(cells),
                "average_local_test_data_difference": Lin(diff, rtol=1e-9)})
        r = m(h, f"{pre}QualityAssurance.check()", q, "check", dia,
              h.seq(test))
        exp(h, f"{pre}QualityAssurance.check()", r, want)


def square(e):
    ks = sorted(e)
    out = {}
    for i, a in enumerate(ks):
        out[((a, 2),)] = e[a] ** 2
        for b in ks[i + 1:]:
            out[((a, 1), (b, 1))] = 2 * e[a] * e[b]
    return out
