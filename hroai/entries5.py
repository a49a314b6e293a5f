"""Abstract clients: arguments that must be rejected or accepted."""
from .domain import const, prim
from .entries import (
    MOD, PD, PR, cloud, curve, entry, model_func, neighbourhood, table,
)
from .harness import INF, Gap
from .nparr import R

NAN = const(float("nan"))
PINF = const(float("inf"))
VE = ("ValueError",)
VT = ("ValueError", "TypeError")


def rejects(h, label, f, *args, exc=VE, **kw):
    f = h.get(f) if isinstance(f, str) else f
    h.call(label, f, *args, tags={"rejects:" + ",".join(exc)}, **kw)


def accepts(h, label, f, *args, **kw):
    f = h.get(f) if isinstance(f, str) else f
    h.call(label, f, *args, tags={"accepts"}, **kw)


def neg(h, role=None):
    return h.num(role, iv=(-INF, 0, True, True), fin=True)


def pos(h, role=None):
    return h.num(role, iv=(0, INF, True, True), fin=True)


def ang(h, unit="deg"):
    return h.num("WA", ang=unit, raw=True, fin=True)


def speed(h):
    return h.num("BSP", fin=True)


def above(h, x):
    return h.num(iv=(x, INF, True, True))


def outside(h, lo=None, hi=None, closed=True):
    """values below lo / above hi: just outside and far outside"""
    out = []
    if lo is not None:
        out += [("just below", (lo - 0.4, lo, True, True)),
                ("far below", (-INF, lo - 1000, True, True))]
    if hi is not None:
        out += [("just above", (hi, hi + 0.4, True, True)),
                ("far above", (hi + 1000, INF, True, True))]
    return [(n, h.num(iv=iv, fin=True)) for n, iv in out]


# ------------------------------------------------- scalar restrictions
POSITIVE = [
    (PR + "ArithmeticMeanInterpolator", "s", ()),
    (PR + "ImprovedIDWInterpolator", None, ()),
    (PR + "interpolator.ShepardInterpolator", "tol", (neighbourhood,)),
    (PR + "interpolator.ShepardInterpolator", "slope", (neighbourhood,)),
    (PR + "Ball", "radius", ()),
    (PR + "ScalingBall", "min_pts", ()),
    (PR + "Ellipsoid", "radius", ()),
    (PR + "CylindricMeanWeigher", "radius", ()),
    (PR + "CylindricMemberWeigher", "radius", ()),
    (PR + "UniformRandomSampler", "n_samples", ()),
    (PR + "FibonacciSampler", "n_samples", ()),
    (PR + "ArchimedeanSampler", "n_samples", ()),
]


@entry("positive parameters", "validation")
def _(h):
    for cls, p, pre in POSITIVE:
        if p is None:
            continue
        try:
            f = h.get(cls)
        except Gap:
            continue
        a = [x(h) for x in pre]
        n = cls.rsplit(".", 1)[1]
        for nm, v in (("0", const(0)), ("0.0", const(0.0)),
                      ("negative", neg(h)), *outside(h, 0)):
            rejects(h, f"{n}({p}={nm})", f, *a, **{p: v})
        for nm, v in ((">0", pos(h)), ("=0.001", const(0.001)),
                      ("=1", const(1)), ("=1000", const(1000))):
            accepts(h, f"{n}({p}{nm})", f, *a, **{p: v})


@entry("other scalar parameters", "validation")
def _(h):
    rejects(h, "IDWInterpolator(p<0)", PR + "IDWInterpolator",
            h.num(kind="int", iv=(-INF, 0, True, True)))
    rejects(h, "IDWInterpolator(p=-1)", PR + "IDWInterpolator", const(-1))
    accepts(h, "IDWInterpolator(p=1)", PR + "IDWInterpolator", const(1))
    rejects(h, "IDWInterpolator(p float)", PR + "IDWInterpolator", pos(h),
            exc=VT)
    accepts(h, "IDWInterpolator(p=0)", PR + "IDWInterpolator", const(0))
    for nm, v in (("<0", neg(h)), *outside(h, 0)):
        rejects(h, f"CylindricMemberWeigher(length {nm})",
                PR + "CylindricMemberWeigher", length=v)
    accepts(h, "CylindricMemberWeigher(length=0)",
            PR + "CylindricMemberWeigher", length=const(0))
    for nm, v in (("<0", neg(h)), (">100", above(h, 100)),
                  *outside(h, 0, 100)):
        rejects(h, f"QuantileFilter({nm})", PR + "QuantileFilter", v)
    for v in (0, 0.5, 1, 50, 99.5, 100):
        accepts(h, f"QuantileFilter({v})", PR + "QuantileFilter", const(v))
    rejects(h, "BoundFilter(upper<lower)", PR + "BoundFilter",
            h.num(iv=(0.5, 1, False, False)), h.num(iv=(0, 0.5, False, True)))
    accepts(h, "BoundFilter(upper=lower)", PR + "BoundFilter", const(0.5),
            const(0.5))


@entry("matrix parameters", "validation")
def _(h):
    E, P = PR + "Ellipsoid", PR + "Polytope"
    one = h.num(iv=(1, 2, False, False), fin=True)
    rejects(h, "Ellipsoid(3x3)", E, h.seq([h.seq([one] * 3)] * 3))
    rejects(h, "Ellipsoid(2x3)", E, h.seq([h.seq([one] * 3)] * 2))
    rejects(h, "Ellipsoid(vector)", E, h.seq([one, one]))
    rejects(h, "Ellipsoid(singular)", E,
            h.seq([h.seq([const(1), const(1)])] * 2))
    accepts(h, "Ellipsoid(2x2)", E,
            h.seq([h.seq([const(1), const(0)]), h.seq([const(0), const(2)])]))
    rejects(h, "Polytope(3 columns)", P, h.seq([h.seq([one] * 3)] * 4),
            h.seq([one] * 4))
    rejects(h, "Polytope(vector)", P, h.seq([one] * 2), h.seq([one] * 2))
    rejects(h, "Polytope(b longer)", P, h.seq([h.seq([one] * 2)] * 3),
            h.seq([one] * 4))
    rejects(h, "Polytope(b matrix)", P, h.seq([h.seq([one] * 2)] * 3),
            h.seq([h.seq([one] * 2)] * 3))
    rejects(h, "Ellipsoid(nan)", E, h.seq([h.seq([NAN] * 2)] * 2))
    rejects(h, "Polytope(1 row, nan)", P, h.seq([h.seq([one, NAN])]),
            h.seq([one]))
    rejects(h, "Polytope(1 row, b inf)", P, h.seq([h.seq([one, one])]),
            h.seq([PINF]))
    rejects(h, "Polytope(nan)", P, h.seq([h.seq([one, NAN])] * 3),
            h.seq([one] * 3))
    rejects(h, "Polytope(b inf)", P, h.seq([h.seq([one] * 2)] * 3),
            h.seq([one, one, PINF]))
    accepts(h, "Polytope(3x2, 3)", P, h.seq([h.seq([one] * 2)] * 3),
            h.seq([one] * 3))


# -------------------------------------------------------- diagrams
@entry("table arguments", "validation", forms=("nd", "list"))
def _(h, form):
    T = PD + "PolarDiagramTable"
    ws = h.fixed(form, [pos(h, "WS"), pos(h, "WS")])
    wa = h.fixed(form, [ang(h), ang(h), ang(h)])
    b = [speed(h), speed(h)]

    def mat(r, c, x=None):
        rows = [h.seq([speed(h)] * c) for _ in range(r)]
        return h.seq(rows)

    accepts(h, "PolarDiagramTable(3x2)", T, ws, wa, mat(3, 2))
    for r, c in ((2, 3), (3, 3), (2, 2), (4, 2), (6, 1)):
        rejects(h, f"PolarDiagramTable({r}x{c} for 3x2)", T, ws, wa,
                mat(r, c))
    for nm, x in (("nan", NAN), ("inf", PINF)):
        m = h.seq([h.seq(b), h.seq([speed(h), x]), h.seq(b)])
        rejects(h, f"PolarDiagramTable(1x1 bsps with {nm})", T,
                h.fixed(form, [pos(h, "WS")]), h.fixed(form, [ang(h)]),
                h.seq([h.seq([x])]))
        rejects(h, f"PolarDiagramTable(1x2 bsps with {nm})", T,
                h.fixed(form, [pos(h, "WS"), pos(h, "WS")]),
                h.fixed(form, [ang(h)]), h.seq([h.seq([speed(h), x])]))
        rejects(h, f"PolarDiagramTable(bsps with {nm})", T, ws, wa, m)
        rejects(h, f"PolarDiagramTable(ws with {nm})", T,
                h.fixed(form, [pos(h), x]), wa, mat(3, 2))
        rejects(h, f"PolarDiagramTable(wa with {nm})", T, ws,
                h.fixed(form, [ang(h), ang(h), x]), mat(3, 2))
    for nm, v in (("<0", neg(h, "WS")), *outside(h, 0)):
        for i in range(2):
            w = [pos(h, "WS")]
            w.insert(i, v)
            rejects(h, f"PolarDiagramTable(ws {nm} at {i})", T,
                    h.fixed(form, w), wa, mat(3, 2))
    accepts(h, "PolarDiagramTable(ws=0)", T,
            h.fixed(form, [const(0), pos(h, "WS")]), wa, mat(3, 2))
    rejects(h, "PolarDiagramTable(ws<0, no bsps)", T,
            h.fixed(form, [neg(h, "WS"), pos(h, "WS")]), wa)
    rejects(h, "PolarDiagramTable(ws empty)", T, h.fixed(form, []), wa)
    rejects(h, "PolarDiagramTable(ws empty, no bsps)", T, h.fixed(form, []),
            wa)
    rejects(h, "PolarDiagramTable(wa empty, no bsps)", T, ws,
            h.fixed(form, []))
    rejects(h, "PolarDiagramTable(ws matrix)", T,
            h.seq([h.seq([pos(h), pos(h)])] * 2), wa)
    for p, top in (("ws_resolution", 40), ("wa_resolution", 360)):
        for nm, v in (("0", const(0)), ("negative", neg(h)),
                      ("too big", above(h, top)), *outside(h, 0, top)):
            rejects(h, f"PolarDiagramTable({p}={nm})", T, **{p: v})
        accepts(h, f"PolarDiagramTable({p}={top})", T, **{p: const(top)})
        accepts(h, f"PolarDiagramTable({p})", T,
                **{p: h.num(iv=(0, top, True, False))})


def table3(h):
    """a table with 3 wind angles and 2 wind speeds"""
    return h.new("PolarDiagramTable()", PD + "PolarDiagramTable",
                 h.seq([const(4), const(6)]),
                 h.seq([const(10), const(20), const(30)]),
                 h.seq([h.seq([speed(h), speed(h)]) for _ in range(3)]))


@entry("table operations arguments", "validation")
def _(h):
    d = table3(h)
    m = lambda n: h.attr(d, n)
    row = h.seq([speed(h), speed(h), speed(h)])
    rejects(h, "table.change_entries(unknown ws)", m("change_entries"), row,
            const(5))
    rejects(h, "table.change_entries(unknown wa)", m("change_entries"),
            h.seq([speed(h), speed(h)]), None, const(15))
    rejects(h, "table.change_entries(one unknown ws)", m("change_entries"),
            row, h.seq([const(4), const(5)]))
    rejects(h, "table.change_entries(one unknown wa)", m("change_entries"),
            h.seq([speed(h), speed(h)]), None,
            h.seq([const(20), const(25)]))
    rejects(h, "table.change_entries(ws<0)", m("change_entries"), row,
            const(-4))
    rejects(h, "table.change_entries(no ws)", m("change_entries"), row,
            h.seq([]))
    rejects(h, "table.change_entries(too few)", m("change_entries"),
            h.seq([speed(h), speed(h)]), const(4))
    rejects(h, "table.change_entries(too many)", m("change_entries"),
            h.seq([speed(h)] * 4), const(4))
    rejects(h, "table.change_entries(transposed)", m("change_entries"),
            h.seq([h.seq([speed(h)] * 3)] * 2))
    rejects(h, "table.change_entries(nan)", m("change_entries"),
            h.seq([speed(h), NAN, speed(h)]), const(4))
    accepts(h, "table.change_entries(ws)", m("change_entries"), row,
            const(4))
    accepts(h, "table.change_entries(wa)", m("change_entries"),
            h.seq([speed(h), speed(h)]), None, const(370))
    rejects(h, "table.to_csv(unknown format)", m("to_csv"),
            prim("str", path="P", lab=frozenset(("PATH",))), const("xls"),
            exc=("NotImplementedError", "ValueError"))
    rejects(h, "table.get_slices(text)", m("get_slices"), const("fast"),
            exc=("TypeError",))
    rejects(h, "table.get_slices(object)", m("get_slices"),
            h.seq([const("fast")]), exc=("TypeError",))
    rejects(h, "table.get_slices(n_steps=0)", m("get_slices"),
            h.seq([const(4), const(6)]), n_steps=const(0))
    rejects(h, "table.get_slices(n_steps<0)", m("get_slices"),
            h.seq([const(4), const(6)]),
            n_steps=h.num(kind="int", iv=(-INF, -1, True, False)))
    rejects(h, "table.get_points(tuple of 3)", m("get_points"),
            h.seq([pos(h, "WS"), ang(h), ang(h)], typ="tuple"))
    rejects(h, "table.get_points(text)", m("get_points"), const("all"),
            exc=("TypeError",))


@entry("cloud arguments", "validation", forms=("list",))
def _(h, form):
    C = PD + "PolarDiagramPointcloud"

    def pts(*ws):
        return h.seq([h.seq([w, h.num("WA", ang="deg", raw=True, fin=True,
                                      iv=(10, 20, False, False)),
                             h.num("BSP", fin=True, iv=(1, 9, False, False))])
                      for w in ws])

    def some(*rows):
        """points whose three columns are alike"""
        return h.arr(("F", R(("fix", 3))), list(rows))

    d = cloud(h, "nd")
    m = lambda n: h.attr(d, n)
    if form == "list":
        for nm, x in (("nan", NAN), ("inf", PINF)):
            for i in range(3):
                p1 = [pos(h, "WS"), ang(h), speed(h)]
                p1[i] = x
                rejects(h, f"cloud.add_points(1 point, {nm} at {i})",
                        m("add_points"), h.seq([h.seq(p1)]), exc=VT)
                rejects(h, f"PolarDiagramPointcloud(1 point, {nm} at {i})",
                        C, h.seq([h.seq(p1)]), exc=VT)
        rejects(h, "cloud.add_points(1 point, ws=0)", m("add_points"),
                pts(const(0)), exc=VT)
        rejects(h, "cloud.add_points(1 point, ws<0)", m("add_points"),
                pts(neg(h, "WS")), exc=VT)
        rejects(h, "cloud.add_points(1 point, apparent, ws<0)",
                m("add_points"), pts(neg(h, "WS")),
                apparent_wind=const(True), exc=VT)
        rejects(h, "PolarDiagramPointcloud(1 point, apparent, ws<0)", C,
                pts(neg(h, "WS")), apparent_wind=const(True), exc=VT)
        for i, q in enumerate(((pos(h), neg(h)), (neg(h), pos(h)),
                               (pos(h), const(0), pos(h)))):
            rejects(h, f"cloud.add_points(some ws<=0, {i})",
                    m("add_points"), some(*q), exc=VT)
            if i < 2:
                rejects(h, f"cloud.add_points(apparent, some ws<0, {i})",
                        m("add_points"), some(*q), apparent_wind=const(True),
                        exc=VT)
                rejects(h, f"PolarDiagramPointcloud(apparent, some ws<0, {i})",
                        C, some(*q), apparent_wind=const(True), exc=VT)
        rejects(h, "cloud.add_points(ws=0)", m("add_points"),
                pts(pos(h, "WS"), const(0)), exc=VT)
        rejects(h, "cloud.add_points(ws<0)", m("add_points"),
                pts(pos(h, "WS"), neg(h, "WS")), exc=VT)
        rejects(h, "cloud.add_points(nan)", m("add_points"),
                h.seq([h.seq([pos(h), ang(h), NAN])]), exc=VT)
        rejects(h, "cloud.add_points(apparent, ws<0)", m("add_points"),
                pts(pos(h, "WS"), neg(h, "WS")), apparent_wind=const(True),
                exc=VT)
        accepts(h, "cloud.add_points()", m("add_points"), pts(pos(h, "WS")))
        rejects(h, "PolarDiagramPointcloud(apparent, ws<0)", C,
                pts(pos(h, "WS"), neg(h, "WS")), apparent_wind=const(True),
                exc=VT)
        rejects(h, "PolarDiagramPointcloud(nan)", C,
                h.seq([h.seq([pos(h), ang(h), NAN])]), exc=VT)
    for nm, v in (("<0", neg(h, "WS")), *outside(h, 0)):
        rejects(h, f"cloud(ws {nm})", d, v, ang(h))
    accepts(h, "cloud(ws>0)", d, pos(h, "WS"), ang(h))


@entry("curve arguments", "validation")
def _(h):
    C = PD + "PolarDiagramCurve"
    rejects(h, "PolarDiagramCurve(not callable)", C, const(3),
            exc=("TypeError",))
    rejects(h, "PolarDiagramCurve(text)", C, const("f"), exc=("TypeError",))
    MF = "hrosailing.core.modelfunctions."
    from .entries4 import model_names
    for n in model_names(h):
        f = h.get(MF + n)
        k = len(h.st.heap[f.single()].info.params) - 2
        if k <= 0:
            continue
        for j in (0, k - 1, k + 1, k + 2):
            rejects(h, f"PolarDiagramCurve({n}, {j} of {k} parameters)", C,
                    f, *[h.num() for _ in range(j)])
        r = h.call(f"PolarDiagramCurve({n}, {k} parameters)", h.get(C), f,
                   *[h.num() for _ in range(k)], tags={"accepts"})
    for fm in ("deg", "rad"):
        d = curve(h, fm == "rad")
        for nm, v in (("<0", neg(h, "WS")), *outside(h, 0)):
            rejects(h, f"curve-{fm}(ws {nm})", d, v, ang(h, fm))
        accepts(h, f"curve-{fm}(ws=0)", d, const(0), ang(h, fm))
        rejects(h, f"curve-{fm}(some ws<0)", d,
                h.arr(("F",), [pos(h, "WS"), neg(h, "WS")]),
                h.arr(("F",), [ang(h, fm), ang(h, fm)]))


@entry("multisails arguments", "validation")
def _(h):
    d = h.new("PolarDiagramMultiSails()", PD + "PolarDiagramMultiSails",
              h.seq([table3(h), table3(h)]),
              h.seq([const("jib"), const("genoa")]))
    rejects(h, "multisails[unknown]", h.attr(d, "__getitem__"),
            const("spinnaker"), exc=("ValueError", "KeyError"))
    accepts(h, "multisails[jib]", h.attr(d, "__getitem__"), const("jib"))
    accepts(h, "multisails[genoa]", h.attr(d, "__getitem__"),
            const("genoa"))


@entry("reading arguments", "validation", "file")
def _(h):
    p = prim("str", path="V", lab=frozenset(("PATH",)))
    rejects(h, "from_csv(unknown format)", PD + "from_csv", p, const("xls"))


@entry("wind conversion arguments", "validation")
def _(h):
    for n in ("convert_apparent_wind_to_true", "convert_true_wind_to_apparent"):
        f = h.get("hrosailing.core.computing." + n)
        ok = [h.seq([pos(h, "WS"), ang(h), speed(h)])
              for _ in range(2)]
        accepts(h, f"{n}(n,3)", f, h.seq(ok))
        rejects(h, f"{n}(ws<0)", f,
                h.seq(ok + [h.seq([neg(h), ang(h), speed(h)])]), exc=VT)
        rejects(h, f"{n}(nan)", f,
                h.seq(ok + [h.seq([pos(h), ang(h), NAN])]), exc=VT)
        for nm, v in (("<0", neg(h)), *outside(h, 0)):
            rejects(h, f"{n}(1 row, ws {nm})", f,
                    h.seq([h.seq([v, ang(h), speed(h)])]), exc=VT)
        accepts(h, f"{n}(1 row, ws=0)", f,
                h.seq([h.seq([const(0), ang(h), speed(h)])]))
        for i in range(3):
            for nm, x in (("nan", NAN), ("inf", PINF)):
                p1 = [pos(h), ang(h), speed(h)]
                p1[i] = x
                rejects(h, f"{n}(1 row, {nm} at {i})", f,
                        h.seq([h.seq(p1)]), exc=VT)
        for i, q in enumerate(((pos(h), neg(h)), (neg(h), pos(h)))):
            rejects(h, f"{n}(some ws<0, {i})", f,
                    h.arr(("F", R(("fix", 3))), list(q)), exc=VT)
        rejects(h, f"{n}(2 columns)", f,
                h.seq([h.seq([pos(h), ang(h)])] * 3), exc=VT)
        rejects(h, f"{n}(4 columns)", f,
                h.seq([h.seq([pos(h), ang(h), speed(h), speed(h)])] * 3),
                exc=VT)
        rejects(h, f"{n}(vector)", f, h.seq([pos(h), ang(h), speed(h)]),
                exc=VT)


# -------------------------------------------------------- components
@entry("component arguments", "validation")
def _(h):
    w3 = h.rows("nd", "pts", [pos(h, "WS"), ang(h), speed(h)])
    w2 = h.rows("nd", "pts2", [pos(h, "WS"), ang(h)])
    for n in ("ODRegressor",):
        try:
            r = h.new(f"{n}()", PR + n, model_func(h), h.seq([h.num()] * 3))
        except Gap:
            continue
        rejects(h, f"{n}.fit(2 columns)", h.attr(r, "fit"), w2)
        rejects(h, f"{n}.fit(no records)", h.attr(r, "fit"),
                no_rows(h))
    z = h.new("ZeroInjector()", PR + "ZeroInjector", const(5))
    for nm, d in (("list", h.seq([h.seq([pos(h, "WS"), ang(h), speed(h)])])),
                  ("2 columns", w2)):
        wp = h.quiet(wp_cls(h), d, const(1))
        rejects(h, f"ZeroInjector.inject({nm})", h.attr(z, "inject"), wp,
                exc=VT)
    idw = h.new("IDWInterpolator()", PR + "IDWInterpolator")
    empty = h.quiet(wp_cls(h), no_rows(h), const(1))
    rejects(h, "IDWInterpolator.interpolate(no points)",
            h.attr(idw, "interpolate"), empty,
            h.arr(("F",), [pos(h, "WS"), ang(h)]))
    w = h.new("CylindricMeanWeigher()", PR + "CylindricMeanWeigher")
    for op in ("__add__", "__mul__", "__sub__", "__truediv__",
               "__rtruediv__"):
        rejects(h, f"Weigher.{op}(text)", h.attr(w, op), const("x"),
                exc=("TypeError",))
        accepts(h, f"Weigher.{op}(number)", h.attr(w, op), const(2))
        accepts(h, f"Weigher.{op}(weigher)", h.attr(w, op), w)


def no_rows(h):
    z = h.I.ext.load_ext("numpy.zeros")
    return h.quiet(z, h.seq([const(0), const(3)], typ="tuple"))


def wp_cls(h):
    return h.get("hrosailing.core.data.WeightedPoints")


@entry("Data arguments", "validation")
def _(h):
    D = "hrosailing.core.data.Data"
    def mk():
        d = h.new("Data()", D)
        h.do("Data.update(valid)", h.attr(d, "update"), h.dict({
            "TWS": h.seq([pos(h, "WS"), pos(h, "WS")]), "TWA": h.seq([ang(h), ang(h)])}))
        return d
    d = mk()
    rejects(h, "Data.update(list)", h.attr(d, "update"), h.seq([pos(h, "WS")]),
            exc=("TypeError",))
    rejects(h, "Data.rename(existing)", h.attr(d, "rename"), const("TWS"),
            const("TWA"))
    rejects(h, "Data.extend(other type)", h.attr(d, "extend"), const("TWS"),
            h.seq([prim("str")]))
    rejects(h, "Data.extend(mixed types)", h.attr(d, "extend"),
            const("BSP"), h.seq([prim("str"), speed(h)]))
    rejects(h, "Data[object]", h.attr(d, "__getitem__"),
            h.seq([const(1.5)]), exc=("TypeError",))
    accepts(h, "Data.rename(new)", h.attr(d, "rename"), const("TWS"),
            const("AWS"))
    accepts(h, "Data.extend()", h.attr(d, "extend"), const("TWA"),
            h.seq([ang(h)]))


@entry("handler arguments", "validation")
def _(h):
    c = h.new("ArrayHandler()", PR + "ArrayHandler")
    a = h.arr((R(h.space("rows")), "F"), [pos(h, "WS"), ang(h), speed(h)])
    rejects(h, "ArrayHandler.handle(2 keys for 3 columns)",
            h.attr(c, "handle"),
            h.seq([a, h.seq([const("TWS"), const("TWA")])], typ="tuple"))
    rejects(h, "ArrayHandler.handle(4 keys for 3 columns)",
            h.attr(c, "handle"),
            h.seq([a, h.seq([const("TWS"), const("TWA"), const("BSP"),
                             const("SOG")])], typ="tuple"))
    accepts(h, "ArrayHandler.handle(3 keys)", h.attr(c, "handle"),
            h.seq([a, h.seq([const("TWS"), const("TWA"), const("BSP")])],
                  typ="tuple"))


@entry("handler arguments by rows", "validation")
def _(h):
    h.I.grids = True
    c = h.new("ArrayHandler()", PR + "ArrayHandler")
    keys = ("TWS", "TWA", "BSP", "SOG")
    for n in (1, 2, 4, 3):
        a = h.quiet(h.I.ext.load_ext("numpy.array"), h.seq([
            h.seq([h.val(x) for x in r])
            for r in ((5., 60., 3.), (6., 70., 4.))]))
        (accepts if n == 3 else rejects)(
            h, f"ArrayHandler.handle({n} keys for rows of 3)",
            h.attr(c, "handle"), h.seq([a, h.seq([
                const(k) for k in keys[:n]])], typ="tuple"))


# -------------------------------------------------------- weather, cruising
@entry("weather arguments", "validation", "weather")
def _(h):
    la = [const(10.0), const(20.0)]
    lo = [const(30.0), const(40.0)]
    d = h.arr((R(h.space("t")), R(h.space("la")), R(h.space("lo")), "F"),
              [h.num("U")])
    m = h.new("GriddedWeatherModel()", MOD + "GriddedWeatherModel", d,
              h.seq([const(0), const(5)]), h.seq(la), h.seq(lo),
              h.seq([const("UGRD")]))
    g = h.attr(m, "get_weather")

    def pt(a, b, c):
        return h.seq([a, b, c], typ="tuple")

    ins = (const(1), const(15.0), const(35.0))
    for i, (lo_, hi_) in enumerate(((0, 5), (10, 20), (30, 40))):
        for nm, v in (("below", h.num(iv=(-INF, lo_, True, True))),
                      ("above", h.num(iv=(hi_, INF, True, True)))):
            p = list(ins)
            p[i] = v
            rejects(h, f"GriddedWeatherModel.get_weather(axis {i} {nm})", g,
                    pt(*p))
    accepts(h, "GriddedWeatherModel.get_weather(inside)", g, pt(*ins))
    accepts(h, "GriddedWeatherModel.get_weather(corner)", g,
            pt(const(0), const(10.0), const(30.0)))
    accepts(h, "GriddedWeatherModel.get_weather(last corner)", g,
            pt(const(5), const(20.0), const(40.0)))


@entry("cruising arguments", "validation", "cruising")
def _(h):
    d = table(h, "nd")
    f = h.get("hrosailing.cruising.cruise")
    h0 = h.seq([h.num("LAT", ang="deg"), h.num("LON", ang="deg")],
               typ="tuple")
    h1 = h.seq([h.num("LAT", ang="deg"), h.num("LON", ang="deg")],
               typ="tuple")
    rejects(h, "cruise(unknown wind_fmt)", f, d, h0, h1,
            h.seq([pos(h, "WS"), ang(h)], typ="tuple"),
            wind_fmt=const("polar"),
            exc=("AttributeError", "ValueError"))
