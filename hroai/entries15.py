"""Abstract clients: winds between the usual whole numbers.

Decimal resolutions, points close to each other, calm points, mirrored
curves and fleets of more than two sails."""
import math

from .domain import const
from .entries import PD, PR, entry
from .entries4 import lpath
from .entries6 import call, data, el, exp, lst, m, val
from .entries6 import state as dstate
from .entries7 import PTS as WPTS
from .entries7 import (CLOUD, SAILS, TABLE, arr, cloud, cstate, form, grids,
                       state, table)
from .entries12 import NORM, l2, mean
from .rules_prov import Cols, Lin, Un

DWS = (6.4, 8.25, 10.5)
DWA = (40.5, 60.25, 150.125)
NAMES = [[f"@b{i}{j}" for j in range(3)] for i in range(3)]


def decimals(h, ws=DWS, wa=DWA, rows=NAMES):
    return h.new("PolarDiagramTable(decimals)", TABLE, lst(h, *ws),
                 lst(h, *wa), val(h, rows))


def near(s, a):
    ps = [(NAMES[i][j], l2(x - s, y - a)) for i, y in enumerate(DWA)
          for j, x in enumerate(DWS)]
    return mean([math.exp(-50 * d) for _, d in ps], 1.0, [n for n, _ in ps])


def entries(h, label, t, rows=NAMES):
    state(h, label, t, ws=DWS, wa=DWA, rows=rows)
    for i, a in enumerate(DWA):
        for j, s in enumerate(DWS):
            exp(h, f"{label}()", call(h, f"{label}()", t, const(s),
                                      const(a)), rows[i][j])


@entry("decimal winds", "prov", "winds", "turns")
def _(h):
    grids(h)
    t = decimals(h)
    entries(h, "PolarDiagramTable(decimals)", t)
    for s, a in ((6.4, 40.0), (6., 40.5), (6.0, 40.0), (8.25, 60.0),
                 (8., 60.25), (10.0, 150.0), (11.0, 150.125),
                 (6.4, 60.5), (6.4, 60.2), (8.3, 60.25)):
        exp(h, "PolarDiagramTable(decimals)()", call(
            h, "PolarDiagramTable(decimals)()", t, const(s), const(a)),
            near(s, a))
    r = m(h, "get_slices(decimals)", t, "get_slices", lst(h, 6., 10.5, 8))
    exp(h, "get_slices(decimals)", r, ([6., 10.5, 8.], [[[w] * 3, list(DWA), [
        NAMES[i][2] if w == 10.5 else near(w, a) for i, a in enumerate(DWA)]]
        for w in (6., 10.5, 8.)]))
    for ws in ([6.4], [10.5, 8.25]):
        r = m(h, "get_slices(decimals)", t, "get_slices", lst(h, *ws))
        exp(h, "get_slices(decimals)", r, (ws, [
            [[w] * 3, list(DWA), [r[DWS.index(w)] for r in NAMES]]
            for w in ws]))
    new = [[x.replace("b", "c") for x in r] for r in NAMES]
    m(h, "change_entries(decimals)", t, "change_entries",
      val(h, [new[i][1] for i in range(3)]), ws=const(8.25))
    rows = [[r[0], new[i][1], r[2]] for i, r in enumerate(NAMES)]
    entries(h, "change_entries(decimals)", t, rows)
    m(h, "change_entries(decimals)", t, "change_entries",
      val(h, new[1]), wa=const(60.25 - 360))
    rows[1] = new[1]
    entries(h, "change_entries(decimals)", t, rows)
    t = decimals(h)
    s = m(h, "symmetrize(decimals)", t, "symmetrize")
    state(h, "symmetrize(decimals)", s, ws=DWS,
          wa=list(DWA) + [360 - a for a in DWA[::-1]],
          rows=NAMES + NAMES[::-1])


@entry("close winds", "prov", "winds")
def _(h):
    """neighbouring resolutions less than one apart are different winds"""
    grids(h)
    ws, wa = (6.1, 6.2, 6.3, 7.), (40., 40.4, 40.8)
    rows = [[f"@b{i}{j}" for j in range(4)] for i in range(3)]
    t = decimals(h, ws, wa, rows)
    state(h, "PolarDiagramTable(close)", t, ws=ws, wa=wa, rows=rows)
    for i, a in enumerate(wa):
        for j, s in enumerate(ws):
            exp(h, "PolarDiagramTable(close)()", call(
                h, "PolarDiagramTable(close)()", t, const(s), const(a)),
                rows[i][j])
    r = m(h, "get_slices(close)", t, "get_slices", lst(h, 6.2))
    exp(h, "get_slices(close)", r, ([6.2], [
        [[6.2] * 3, list(wa), [r[1] for r in rows]]]))


CALM = [(0., 50., "@b0"), (8.2, 40.3, "@b1"), (8.2, 40.7, "@b2"),
        (8.6, 40.3, "@b3"), (0., 0., "@b4"), (0.2, 180., "@b5")]


def cl(h, pts=CALM, kind="array"):
    return h.new("PolarDiagramPointcloud(calm)", CLOUD, form(
        h, kind, [list(p) for p in pts]))


@entry("calm points", "prov", "winds", "turns",
       forms=("list", "tuple", "array"))
def _(h, kind):
    grids(h)
    c = cl(h, kind=kind)
    exp(h, "points", h.attr(c, "points"), Un([list(p) for p in CALM]))
    exp(h, "wind_speeds", h.attr(c, "wind_speeds"), [0., .2, 8.2, 8.6])
    exp(h, "wind_angles", h.attr(c, "wind_angles"),
        [0., 40.3, 40.7, 50., 180.])
    for s, a, x in CALM:
        for turn in (0, 360):
            if turn and a != int(a):
                continue
            exp(h, "PolarDiagramPointcloud(calm)()", call(
                h, "PolarDiagramPointcloud(calm)()", c, const(s),
                const(a + turn)), x)
    for s, a in ((8.2, 40.5), (8.4, 40.3), (8., 40.), (8., 40.3),
                 (0., 49.5), (.1, 180.), (8.2, 41.)):
        exp(h, "PolarDiagramPointcloud(calm)()", call(
            h, "PolarDiagramPointcloud(calm)()", c, const(s), const(a)),
            mean([math.exp(-50 * l2(x - s, y - a)) for x, y, _ in CALM]))
    for r, ws in ((.1, [8.2, 0.]), (.3, [8.4, 0.]), (1, [7.4])):
        x = m(h, "get_slices(calm)", c, "get_slices", lst(h, *ws),
              range_=const(r))
        exp(h, "get_slices(calm)", x, (ws, [Cols([
            list(p) for p in CALM if abs(p[0] - w) <= r]) for w in ws]))
    n = [(8.2, 40.5, "@c0"), (.1, 300.75, "@c1")]
    m(h, "add_points(calm)", c, "add_points", form(
        h, kind, [list(p) for p in n]))
    exp(h, "points", h.attr(c, "points"), Un([list(p) for p in CALM + n]))
    exp(h, "PolarDiagramPointcloud(calm)()", call(
        h, "PolarDiagramPointcloud(calm)()", c, const(8.2), const(40.5)),
        "@c0")


@entry("curve mirrored", "prov", "winds", "interp", "turns", "units",
       forms=("degrees", "radians"))
def _(h, kind):
    grids(h)
    mod = h.client("norms", NORM)
    k = math.pi / 180 if kind == "radians" else 1
    c = h.new("PolarDiagramCurve()", PD + "PolarDiagramCurve",
              h.get(mod + ".polynomial"), *[val(h, f"@p{i}")
                                            for i in range(3)],
              radians=const(kind == "radians"))
    s = m(h, "PolarDiagramCurve.symmetrize()", c, "symmetrize")
    exp(h, "radians", h.attr(s, "radians"), kind == "radians")
    exp(h, "parameters", h.attr(s, "parameters"), [
        f"@p{i}" for i in range(3)])
    for w, a in ((7., 50.), (12.5, 310.), (8., 180.), (6., 300.)):
        for turn in (0, 360, -360):
            x = call(h, "symmetrize()()", s, const(w), const((a + turn) * k))
            # both sides of p0 ws + p1 wa + p2 ws wa
            exp(h, "symmetrize()()", x, Lin({
                "@p0": w, "@p1": 180 * k, "@p2": w * 180 * k}, rtol=1e-4))


@entry("fleet of three", "prov", "interp", "winds")
def _(h):
    grids(h)
    ivs = {"a": (0, 1, False, False), "b": (8, 9, False, False),
           "c": (2, 3, False, False), "d": (5, 6, False, False)}
    ws, wa = (6, 8), (40, 60)

    def table(order, k):
        return h.new("PolarDiagramTable()", TABLE, lst(h, *ws),
                     lst(h, *wa), h.seq([h.seq([
                         el(h, f"{x}{k}{i}{j}", iv=ivs[x])
                         for j, x in enumerate(r)])
                         for i, r in enumerate(order)]))
    # the fastest sail is marked b
    ords = (("ab", "ca"), ("ca", "db"), ("bd", "ac"), ("dc", "bd"))
    ts = [table(x, k) for k, x in enumerate(ords)]
    ms = h.new("PolarDiagramMultiSails()", SAILS, h.seq(ts),
               lst(h, "w", "x", "y", "z"))
    for i, a in enumerate(wa):
        for j, s in enumerate(ws):
            best = [k for k, o in enumerate(ords) if o[i][j] == "b"]
            exp(h, "PolarDiagramMultiSails()()", call(
                h, "PolarDiagramMultiSails()()", ms, const(s), const(a)),
                f"@b{best[0]}{i}{j}")
    exp(h, "sails", h.attr(ms, "sails"), ["w", "x", "y", "z"])
    for k, n in enumerate("wxyz"):
        t = m(h, "sails[]", ms, "__getitem__", const(n))
        state(h, f"sails[{n}]", t, ws=ws, wa=wa, rows=[
            [f"@{x}{k}{i}{j}" for j, x in enumerate(r)]
            for i, r in enumerate(ords[k])])
    for w in (8, 6):
        x = m(h, "PolarDiagramMultiSails.get_slices(info)", ms, "get_slices",
              lst(h, w), full_info=True)
        j = ws.index(w)
        cols = [[w, a, f"@{ords[k][i][j]}{k}{i}{j}"] for k in range(4)
                for i, a in enumerate(wa)]
        exp(h, "PolarDiagramMultiSails.get_slices(info)", x,
            ([w], [Cols(cols)], [[n for n in "wxyz" for _ in wa]]))


def rt(h, d, label, fmt=None):
    p = lpath("MARKS")
    a = [] if fmt is None else [const(fmt)]
    m(h, f"{label}.to_csv({fmt or ''})", d, "to_csv", p, *a)
    return call(h, f"from_csv({fmt or ''})", PD + "from_csv", p, *a)


@entry("decimal table file", "prov", "winds", "stored",
       forms=("hro", "array", "orc", "opencpn"))
def _(h, fmt):
    grids(h)
    entries(h, f"from_csv({fmt})", rt(h, decimals(h), "PolarDiagramTable",
                                      fmt))


@entry("calm cloud file", "prov", "winds", "stored")
def _(h):
    grids(h)
    r = rt(h, cl(h), "PolarDiagramPointcloud")
    exp(h, "from_csv(): points", h.attr(r, "points"), [
        list(p) for p in CALM])
    for s, a, x in CALM:
        exp(h, "from_csv()()", call(h, "from_csv()()", r, const(s),
                                    const(a)), x)


@entry("fleet file", "prov", "winds", "stored")
def _(h):
    grids(h)
    ws, wa = (6., 8.5), (40.25, 60.)
    ts = [h.new("PolarDiagramTable()", TABLE, lst(h, *ws), lst(h, *wa), val(
        h, [[f"@b{k}{i}{j}" for j in range(2)] for i in range(2)]))
        for k in range(3)]
    ms = h.new("PolarDiagramMultiSails()", SAILS, h.seq(ts),
               lst(h, "spi", "main", "jib"))
    r = rt(h, ms, "PolarDiagramMultiSails")
    exp(h, "sails", h.attr(r, "sails"), ["spi", "main", "jib"])
    for k, n in enumerate(("spi", "main", "jib")):
        state(h, f"from_csv()[{n}]", m(h, "sails[]", r, "__getitem__",
                                       const(n)), ws=ws, wa=wa, rows=[
            [f"@b{k}{i}{j}" for j in range(2)] for i in range(2)])


# ------------------------------------------------------ rejected updates
def refused(h, label, o, name, *args, then=None, **kw):
    """the object is as it was in every state the operation raises in"""
    base = h.st.clone()
    rec = h.meth(label, o, name, *args, **kw)
    for k, st in rec.exc.items():
        if k != "*":
            h.st = st.clone()
            then(f"{label} raised")
    h.st = base


@entry("container updates rejected", "prov", "atomic")
def _(h):
    cols = {"a": ["@a0", "@a1", "@a2"], "b": ["x", "y", "z"]}
    n1, n2 = ["@n0"], ["@n0", "@n1"]
    for label, name, args, kw in (
            ("update(second column)", "update", [{"a": n1, "b": n1}], {}),
            ("update(first column)", "update", [{"b": n1, "a": n1}], {}),
            ("update(new column)", "update", [{"c": ["@n0", "w"]}], {}),
            ("update(mixed column)", "update", [{
                "a": n2, "b": ["v", "w"], "c": ["@n2", "w"]}], {}),
            ("update(compress)", "update", [{"a": n2, "b": n2}],
             {"compress": True}),
            ("update(values)", "update", [{"a": "@n0", "b": "@n1"}], {}),
            ("extend(type)", "extend", ["b", n2], {}),
            ("extend(mixed)", "extend", ["a", ["@n0", "w"]], {}),
            ("extend(new, mixed)", "extend", ["c", ["@n0", "w"]], {}),
            ("append(type)", "append", ["b", "@n0"], {}),
            ("rename(existing)", "rename", ["a", "b"], {}),
            ("rename(unknown)", "rename", ["k", "l"], {}),
            ("delete(unknown)", "delete", ["k"], {}),
            ("delete(several, unknown)", "delete", [["a", "k"]], {})):
        d = data(h, cols)
        refused(h, f"Data.{label}", d, name, *[val(h, x) for x in args],
                then=lambda lab: dstate(h, lab, d, cols, 3),
                **{k: const(v) for k, v in kw.items()})
    d = data(h, cols)
    o = data(h, {"a": n2, "b": n2})
    refused(h, "Data.update(container)", d, "update", o,
            then=lambda lab: dstate(h, lab, d, cols, 3))


@entry("diagram updates rejected", "prov", "atomic")
def _(h):
    grids(h)
    x3 = ["@x0", "@x1", "@x2"]
    for label, new, kw in (
            ("shape", [x3, x3], {}),
            ("too many", x3 + ["@x3"], {"ws": 6}),
            ("too few", x3[:2], {"wa": 60}),
            ("unknown ws", x3, {"ws": 7}),
            ("partly unknown ws", [x3[:2]] * 3, {"ws": [6, 7]}),
            ("unknown wa", x3, {"wa": 61}),
            ("partly unknown wa", [x3] * 2, {"wa": [60, 61]}),
            ("negative ws", x3, {"ws": -6}),
            ("not finite", [x3, x3, ["@x0", "@x1", math.nan], x3], {}),
            ("no ws", x3, {"ws": []})):
        t = table(h)
        refused(h, f"change_entries({label})", t, "change_entries",
                val(h, new), then=lambda lab: state(h, lab, t),
                **{k: h.val(lst(h, *v)) if isinstance(v, list) else const(v)
                   for k, v in kw.items()})
    for kind in ("list", "array"):
        for label, new in (
                ("ws = 0", [["@x0", "@x1", "@x2"], [0., 30., "@x3"]]),
                ("ws < 0", [[7., 20., "@x2"], [-1., 30., "@x3"]]),
                ("not finite", [[7., 20., "@x2"], [7., 30., math.inf]]),
                ("columns", [[7., 20.], [8., 30.]])):
            c = cloud(h)
            refused(h, f"add_points({label})", c, "add_points",
                    form(h, kind, new), then=lambda lab: cstate(
                        h, lab, c, WPTS))
