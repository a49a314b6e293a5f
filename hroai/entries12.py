"""Abstract clients: interpolation is the documented mean of the neighbours.

Winds are known, boat speeds are marks, so every result is a linear form."""
import math

from .domain import const
from .entries import CORE, PD, PIPE, PR, entry
from .entries6 import WP, call, col, el, exp, get, lst, m, val
from .entries7 import CLOUD, SAILS, TABLE, arr, grids
from .rules_prov import ANY, Dep, Lin, Un

NORM = '''
import numpy as np


def sums(vec):
    return np.abs(vec[:, 0]) + 2 * np.abs(vec[:, 1])


def falloff(dist, old, *params):
    return params[0] / (params[1] + old * dist)


def same(dist, old):
    return np.ones(len(dist))


def polynomial(ws, wa, *params):
    return params[0] * ws + params[1] * wa + params[2] * ws * wa


def split(ws, wa, *params):
    return 1000 * params[0] + ws * params[1] + wa * 100 * params[1]
'''
PTS = ((8., 40.), (10., 60.), (9., 44.), (6., 100.), (12., 38.))
GRIDS = ((8.5, 42.), (10., 61.), (20., 200.), (9., 44.0001), (8., 60.))


def l2(x, y):
    return math.hypot(x / 40, y / 360)


def l1(x, y):
    return abs(x) + 2 * abs(y)


def cloud(h, pts=PTS, w=None):
    n = len(pts)
    return h.new("WeightedPoints()", WP, arr(h, [
        [ws, wa, f"@b{i}"] for i, (ws, wa) in enumerate(pts)]),
        arr(h, list(w or [1.0] * n)))


def mean(ws, f=1.0, names=None):
    s = math.fsum(ws)
    names = names or [f"@b{i}" for i in range(len(ws))]
    d = {}
    for n, x in zip(names, ws):
        if x:
            d[n] = d.get(n, 0) + f * x / s
    return Lin(d, rtol=1e-5)


def improved(ds):
    r = max(ds)
    return [(1 / d if d <= r / 3 else 27 / (4 * r) * (d / r - 1) ** 2) ** 2
            for d in ds]


def at(h, label, f, pts, g, want, w=None):
    r = m(h, f"{label}.interpolate()", f, "interpolate", cloud(h, pts, w),
          arr(h, list(g)))
    exp(h, f"{label}.interpolate()", r, want)


def known(h, label, f):
    """at a measured point the measured boat speed is the result"""
    for i, p in enumerate(PTS):
        at(h, label, f, PTS, p, f"@b{i}")
        at(h, label, f, PTS[::-1], p, f"@b{len(PTS) - 1 - i}")
        at(h, label, f, (p,), p, "@b0")


@entry("inverse distance", "prov", "interp", forms=("default", "norm"))
def _(h, form):
    grids(h)
    mod = h.client("norms", NORM)
    kw, d = ({}, l2) if form == "default" else (
        {"norm": h.get(mod + ".sums")}, l1)
    for p in (None, 1, 2, 3, 0):
        k = dict(kw) if p is None else dict(kw, p=const(p))
        f = h.new("IDWInterpolator()", PR + "IDWInterpolator", **k)
        q = 2 if p is None else p
        if p is None:
            known(h, "IDWInterpolator", f)
        for pts in (PTS, PTS[2:4], PTS[:1]):
            for g in GRIDS:
                at(h, "IDWInterpolator", f, pts, g, mean(
                    [1 / d(a - g[0], b - g[1]) ** q for a, b in pts]))
    h.call("IDWInterpolator.interpolate(nothing)", h.attr(f, "interpolate"),
           h.new("WeightedPoints()", WP, h.quiet(
               h.I.ext.load_ext("numpy.empty"), val(h, (0, 3))),
               arr(h, [])), arr(h, [1., 2.]), tags={"rejects:ValueError"})


@entry("arithmetic mean", "prov", "interp",
       forms=("default", "norm", "distribution"))
def _(h, form):
    grids(h)
    mod = h.client("norms", NORM)
    kw, d = ({}, l2) if form == "default" else (
        {"norm": h.get(mod + ".sums")}, l1)
    ws = (.5, 1., .25, .75, 1.)
    cases = [({}, lambda x, w: math.exp(-100 * w * x), 1),
             ({"params": val(h, (50,))},
              lambda x, w: math.exp(-50 * w * x), 1),
             ({"s": const(2), "params": val(h, (7,))},
              lambda x, w: math.exp(-7 * w * x), 2)]
    if form == "norm":
        cases = [({"params": val(h, (.5,)), "s": const(.5)},
                  lambda x, w: math.exp(-.5 * w * x), .5)]
    elif form == "distribution":
        cases = [({"distribution": h.get(mod + ".falloff"),
                   "params": val(h, (3, 5))}, lambda x, w: 3 / (5 + w * x),
                  1),
                 ({"distribution": h.get(mod + ".same")},
                  lambda x, w: 1., 1)]
    for k, fn, s in cases:
        f = h.new("ArithmeticMeanInterpolator()",
                  PR + "ArithmeticMeanInterpolator", **kw, **k)
        known(h, "ArithmeticMeanInterpolator", f)
        for pts in (PTS, PTS[2:4], PTS[:1]):
            for g in GRIDS:
                w = ws[:len(pts)]
                at(h, "ArithmeticMeanInterpolator", f, pts, g, mean([
                    fn(d(a - g[0], b - g[1]), x)
                    for (a, b), x in zip(pts, w)], s), w)


@entry("improved inverse distance", "prov", "interp",
       forms=("default", "norm"))
def _(h, form):
    grids(h)
    mod = h.client("norms", NORM)
    kw, d = ({}, l2) if form == "default" else (
        {"norm": h.get(mod + ".sums")}, l1)
    f = h.new("ImprovedIDWInterpolator()", PR + "ImprovedIDWInterpolator",
              **kw)
    known(h, "ImprovedIDWInterpolator", f)
    for pts in (PTS, PTS[2:4], PTS[1:]):
        for g in GRIDS:
            ds = [d(a - g[0], b - g[1]) for a, b in pts]
            at(h, "ImprovedIDWInterpolator", f, pts, g, mean(improved(ds)))
    # equally distant points count the same
    for g in GRIDS:
        at(h, "ImprovedIDWInterpolator", f, PTS[:1], g, "@b0")
    at(h, "ImprovedIDWInterpolator", f, ((8., 40.), (12., 40.), (10., 40.),
                                         (10., 40.))[:2], (10., 50.),
       mean([1, 1]))


@entry("Shepard", "prov", "interp")
def _(h):
    grids(h)
    h.I.generic = True
    n = h.new("Ball()", PR + "Ball", const(1))
    f = h.new("ShepardInterpolator()", PR + "interpolator.ShepardInterpolator", n)
    known(h, "ShepardInterpolator", f)
    for g in GRIDS:
        at(h, "ShepardInterpolator", f, PTS, g,
           Dep([f"@b{i}" for i in range(5)]))
    f = h.new("ShepardInterpolator()", PR + "interpolator.ShepardInterpolator", n,
              const(.014))
    # all points closer than the tolerance count the same
    for g, near in (((8.1, 41.), (0,)), ((9.9, 59.), (1,)),
                    ((8.5, 42.), (0, 2))):
        at(h, "ShepardInterpolator", f, PTS, g,
           mean([1.0 * (i in near) for i in range(5)])
           if any(l2(PTS[i][0] - g[0], PTS[i][1] - g[1]) < .014
                  for i in near) and all(
               (l2(p[0] - g[0], p[1] - g[1]) < .014) == (i in near)
               for i, p in enumerate(PTS)) else ANY)


@entry("bilinear", "prov", "interp")
def _(h):
    grids(h)
    f = h.new("BilinearGridInterpolator()", PR + "BilinearGridInterpolator")
    WS, WA = (8., 10., 16.), (40., 60., 100.)
    pts = tuple((s, a) for a in WA[::-1] for s in (10., 8., 16.))
    name = {p: f"@b{i}" for i, p in enumerate(pts)}

    def around(xs, x):
        lo = max(y for y in xs if y <= x)
        hi = min(y for y in xs if y >= x)
        if lo == hi:
            return {lo: 1.0}
        t = (x - lo) / (hi - lo)
        return {lo: 1 - t, hi: t}
    for s in (8., 9., 9.5, 10., 11.5, 16.):
        for a in (40., 45., 60., 90., 100.):
            at(h, "BilinearGridInterpolator", f, pts, (s, a), Lin({
                name[x, y]: u * v for x, u in around(WS, s).items()
                for y, v in around(WA, a).items()}))
    for g in ((7.9, 50.), (16.1, 50.), (9., 39.), (9., 101.)):
        h.call("BilinearGridInterpolator.interpolate(outside)",
               h.attr(f, "interpolate"), cloud(h, pts), arr(h, list(g)),
               tags={"rejects:BilinearInterpolatorOutsideGridException"})
    h.call("BilinearGridInterpolator.interpolate(no grid)",
           h.attr(f, "interpolate"), cloud(h, pts[:4] + pts[5:]),
           arr(h, [9., 50.]),
           tags={"rejects:BilinearInterpolatorNoGridException"})


WS, WA = (6, 8, 10), (40, 60, 90)


def tables(h, names):
    return h.new("PolarDiagramTable()", TABLE, lst(h, *WS), lst(h, *WA),
                 val(h, names))


def grid_names(c="b"):
    return [[f"@{c}{i}{j}" for j in range(3)] for i in range(3)]


def table_mean(s, a, names, take=None, fn=lambda d: math.exp(-50 * d)):
    ps = [(names[i][j], l2(x - s, y - a)) for i, y in enumerate(WA)
          for j, x in enumerate(WS) if take is None or take(x - s, y - a)]
    return mean([fn(d) for _, d in ps], 1.0, [n for n, _ in ps])


WINDS = ((7, 50), (6, 41), (9.5, 90), (11, 20), (8, 75), (7, 300))


@entry("table interpolates", "prov", "interp", "turns",
       forms=("default", "components"))
def _(h, form):
    grids(h)
    names = grid_names()
    t = tables(h, names)
    kw, take, fn = {}, None, lambda d: math.exp(-50 * d)
    if form == "components":
        kw = {"interpolator": h.new("IDWInterpolator()",
                                    PR + "IDWInterpolator", const(1)),
              "neighbourhood": h.new("Cuboid()", PR + "Cuboid",
                                     dimensions=val(h, (2.5, 31)))}
        fn = lambda d: 1 / d

        def take(x, y):
            return abs(x) <= 2.5 and abs(y) <= 31
    for s, a in WINDS[:5 if form == "components" else 6]:
        for turn in (0, 360, -360):
            r = call(h, "PolarDiagramTable()()", t, const(float(s)),
                     const(float(a + turn)), **kw)
            exp(h, "PolarDiagramTable()()", r, table_mean(
                s, a, names, take, fn))
    for i, a in enumerate(WA):
        for j, s in enumerate(WS):
            exp(h, "PolarDiagramTable()()", call(
                h, "PolarDiagramTable()()", t, const(s), const(a), **kw),
                names[i][j])


@entry("cloud interpolates", "prov", "interp", "turns",
       forms=("default", "components"))
def _(h, form):
    grids(h)
    pts = PTS
    c = h.new("PolarDiagramPointcloud()", CLOUD, arr(h, [
        [s, a, f"@b{i}"] for i, (s, a) in enumerate(pts)]))
    kw, fn = {}, lambda d: math.exp(-50 * d)
    near = [lambda s, a, g: True]
    if form == "components":
        kw = {"interpolator": h.new(
            "ArithmeticMeanInterpolator()",
            PR + "ArithmeticMeanInterpolator", params=val(h, (3,))),
            "neighbourhood": h.new("Ball()", PR + "Ball", const(.1))}
        fn = lambda d: math.exp(-3 * d)
        near = [lambda s, a, g: l2(s - g[0], a - g[1]) <= .1]
    for g in ((8.5, 42.), (10., 55.), (11., 60.), (7., 90.), (9., 300.)
              )[:4 if form == "components" else 5]:
        ws = [fn(l2(s - g[0], a - g[1])) if near[0](s, a, g) else 0
              for s, a in pts]
        for turn in (0, 360, -360):
            r = call(h, "PolarDiagramPointcloud()()", c, const(g[0]),
                     const(g[1] + turn), **kw)
            exp(h, "PolarDiagramPointcloud()()", r, mean(ws))
    c = h.new("PolarDiagramPointcloud()", CLOUD, arr(h, [
        [s, a, f"@b{i}"] for i, (s, a) in enumerate(pts)]
        + [[0., 120., "@b5"]]))
    for i, (s, a) in enumerate(pts + ((0., 120.),)):
        exp(h, "PolarDiagramPointcloud()()", call(
            h, "PolarDiagramPointcloud()()", c, const(s), const(a), **kw),
            f"@b{i}")


@entry("cloud slices interpolated", "prov", "interp")
def _(h):
    grids(h)
    c = h.new("PolarDiagramPointcloud()", CLOUD, arr(h, [
        [s, a, f"@b{i}"] for i, (s, a) in enumerate(PTS)]))
    f = h.new("IDWInterpolator()", PR + "IDWInterpolator")
    ws = (7., 10.)
    r = m(h, "PolarDiagramPointcloud.get_slices()", c, "get_slices",
          lst(h, *ws), wa_resolution=const(7), interpolator=f)
    was = [60. * i for i in range(7)]
    sl = [[[w] * 7, was, [
        "@b1" if (w, a) == PTS[1] else mean([
            1 / l2(x - w, y - a % 360) ** 2 for x, y in PTS])
        for a in was]] for w in ws]
    exp(h, "PolarDiagramPointcloud.get_slices()", h.quiet(
        h.I.ext.builtin("list"), r), [list(ws), sl])


@entry("curve evaluated", "prov", "interp", "turns", "units",
       forms=("degrees", "radians"))
def _(h, form):
    grids(h)
    mod = h.client("norms", NORM)
    k = math.pi / 180 if form == "radians" else 1
    c = h.new("PolarDiagramCurve()", PD + "PolarDiagramCurve",
              h.get(mod + ".polynomial"), *[val(h, f"@p{i}")
                                            for i in range(3)],
              radians=const(form == "radians"))
    for s, a in ((7., 50.), (0., 10.), (12.5, 359.), (8., 0.)):
        for turn in (0, 360, -360):
            r = call(h, "PolarDiagramCurve()()", c, const(s),
                     const((a + turn) * k))
            exp(h, "PolarDiagramCurve()()", r, Lin({
                "@p0": s, "@p1": a * k, "@p2": s * a * k}, rtol=1e-4))
    r = call(h, "PolarDiagramCurve()()", c, arr(h, [7., 8., 9.]),
             arr(h, [30. * k, 50. * k, 20. * k]))
    exp(h, "PolarDiagramCurve()(arrays)", r, [Lin({
        "@p0": s, "@p1": a * k, "@p2": s * a * k}, rtol=1e-4)
        for s, a in ((7., 30.), (8., 50.), (9., 20.))])


@entry("best sail", "prov", "interp")
def _(h):
    grids(h)
    ivs = {"a": (0, 1, False, False), "b": (5, 6, False, False),
           "c": (2, 3, False, False)}

    def table(order):
        return h.new("PolarDiagramTable()", TABLE, lst(h, 6, 8),
                     lst(h, 40, 60), h.seq([h.seq([
                         el(h, f"{x}{i}{j}", iv=ivs[x])
                         for j, x in enumerate(r)])
                         for i, r in enumerate(order)]))
    # the fastest sail is marked b
    ts = [table(x) for x in (("ab", "ca"), ("bc", "ac"), ("ca", "bb"))]
    best = {(6, 40): "@b00", (8, 40): "@b01", (6, 60): "@b10",
            (8, 60): "@b11"}
    ms = h.new("PolarDiagramMultiSails()", SAILS, h.seq(ts),
               lst(h, "x", "y", "z"))
    for (s, a), x in best.items():
        exp(h, "PolarDiagramMultiSails()()", call(
            h, "PolarDiagramMultiSails()()", ms, const(s), const(a)), x)


@entry("neighbourhoods", "prov", "interp", "share",
       forms=("ball", "scaling", "ellipsoid", "cuboid", "polytope"))
def _(h, form):
    grids(h)
    mod = h.client("norms", NORM)
    pts = ((0., 0.), (.04, .04), (-.05, .01), (.06, 0.), (0., -.06),
           (1., 20.), (-3., 5.), (-.02, -.045), (.051, .049), (8., -100.),
           (.75, 1.), (-.75, -1.))
    sums = {"norm": h.get(mod + ".sums")}

    def check(label, n, inside, ps=pts):
        for q in (ps, ps[::-1], ps[:1], ps[5:]):
            exp(h, f"{label}.is_contained_in()", m(
                h, f"{label}.is_contained_in()", n, "is_contained_in",
                arr(h, [list(p) for p in q])),
                [inside(*p) for p in q])
    if form == "ball":
        for r, kw, d in ((None, {}, l2), (.2, {}, l2), (.15, sums, l1),
                         (2.75, sums, l1), (41., sums, l1)):
            n = h.new("Ball()", PR + "Ball", *(() if r is None else (
                const(r),)), **kw)
            check("Ball", n, lambda x, y: d(x, y) <= (r or .05))
    elif form == "scaling":
        for k, kw, d in ((1, {}, l2), (3, {}, l2), (4, sums, l1)):
            n = h.new("ScalingBall()", PR + "ScalingBall", const(k), **kw)
            for q in (pts, pts[::-1], pts[5:]):
                lim = sorted(d(*p) for p in q)[k - 1]
                exp(h, "ScalingBall.is_contained_in()", m(
                    h, "ScalingBall.is_contained_in()", n,
                    "is_contained_in", arr(h, [list(p) for p in q])),
                    [d(*p) <= lim for p in q])
    elif form == "ellipsoid":
        for t, r, kw, d in (
                (None, None, {}, l2), (((2., 0.), (0., .5)), .05, sums, l1),
                (((1., 1.), (0., 1.)), .1, sums, l1),
                (((0., 2.), (1., 0.)), .1, sums, l1)):
            k = dict(kw)
            if t:
                k["lin_trans"] = arr(h, [list(x) for x in t])
            if r:
                k["radius"] = const(r)
            n = h.new("Ellipsoid()", PR + "Ellipsoid", **k)
            (a, b), (c, e) = t or ((1., 0.), (0., 1.))
            det = a * e - b * c
            ok = {p: d((e * p[0] - b * p[1]) / det,
                       (a * p[1] - c * p[0]) / det) <= (r or .05)
                  for p in pts}
            check("Ellipsoid", n, lambda x, y: ok[x, y])
    elif form == "cuboid":
        for dim in (None, (.05, .01), (3., 50.)):
            n = h.new("Cuboid()", PR + "Cuboid", **(
                {} if dim is None else {"dimensions": val(h, dim)}))
            a, b = dim or (.05, .05)
            check("Cuboid", n, lambda x, y: abs(x) <= a and abs(y) <= b)
    else:
        n = h.new("Polytope()", PR + "Polytope")
        check("Polytope", n, lambda x, y: abs(x) <= .05 and abs(y) <= .05)
        n = h.new("Polytope()", PR + "Polytope",
                  arr(h, [[1., 0.], [-1., -1.], [0., 2.]]),
                  arr(h, [.05, .055, .09]))
        check("Polytope", n, lambda x, y: x <= .05 and -x - y <= .055
              and 2 * y <= .09)
