"""Abstract clients that use one component object more than once."""
from .contracts import Callable_, Comp, float_like_fn
from .domain import (
    BOOL, E0, FLOAT, INT, NONE, STR, UNK, Const, V, const, join, obj, prim,
)
from .entries import (
    CORE, INTERPOLATORS, MOD, NEIGHBOURHOODS, PD, PIPE, PR, WEIGHERS, Entry,
    ENTRIES, cloud, column_dict, curve, data, diffs, entry, fuzzy, model_func,
    neighbourhood, norm, opaque_weigher, points, table, wpoints,
)
from .entries2 import INF_KEYS, gridded, influence, pipe_run, weather_model
from .harness import INF
from .nparr import R

A1, A2 = ("A1",), ("A2",)


def labelled(v, lab):
    return V(v.objs, v.prims, v.consts, v.lab | frozenset(lab), v.f)


def path(p, lab):
    return prim("str", path=p, lab=frozenset(("PATH",) + lab))


def reuse(name, mk, op, arg, stats=True, tags=()):
    """entry: the same component processes two unrelated inputs"""

    @entry("reuse " + name, "reuse", "component", *tags)
    def _(h):
        c = mk(h)
        for i, lab in ((1, A1), (2, A2)):
            a = arg(h, lab, i)
            a = a if isinstance(a, tuple) else (a,)
            t = {"second"} if i == 2 else set()
            h.meth(f"{name}.{op}#{i}", c, op, *a, tags=t)
            if stats:
                h.meth(f"{name}.get_latest_statistics#{i}", c,
                       "get_latest_statistics", tags=t | {"stats"})
        # another object of the same class
        c = mk(h)
        a = arg(h, A2, 3)
        a = a if isinstance(a, tuple) else (a,)
        h.meth(f"{name}.{op}#other object", c, op, *a, tags={"second"})
        if stats:
            h.meth(f"{name}.get_latest_statistics#other object", c,
                   "get_latest_statistics", tags={"second", "stats"})


def new(path_, *args, **kw):
    def mk(h):
        a = [x(h) if callable(x) else x for x in args]
        k = {n: (x(h) if callable(x) else x) for n, x in kw.items()}
        return h.new(path_.rsplit(".", 1)[1] + "()", path_, *a, **k)

    return mk


def d_of(keys=None, none=True):
    def arg(h, lab, i):
        kw = {} if keys is None else {"keys": keys}
        return labelled(data(h, none=none, lab=lab, space=f"rows{i}", **kw),
                        lab)

    return arg


def rows_of(n=3):
    def arg(h, lab, i):
        f = [h.ws(lab, iv=(0, INF, False, True)), h.wa(lab), h.bsp(lab)][:n]
        return labelled(h.rows("nd", f"pts{i}", f, ne=i == 1), lab)

    return arg


def wp_of(h, lab, i):
    return labelled(wpoints(h, name=f"pts{i}", lab=lab, ne=i == 1), lab)


def int1(h):
    return h.num(kind="int", iv=(1, INF, False, True))


reuse("ArrayHandler", new(PR + "ArrayHandler"), "handle",
      lambda h, lab, i: h.seq([
          h.arr((R(h.space(f"rows{i}")), "F"),
                [h.ws(lab), h.wa(lab, raw=True), h.bsp(lab)], lab=lab),
          h.seq([const("TWS"), const("TWA"), const("BSP")])], typ="tuple",
          lab=lab))
reuse("CsvFileHandler", new(PR + "CsvFileHandler"), "handle",
      lambda h, lab, i: path(f"CSV{i}", lab))
reuse("NMEAFileHandler", new(PR + "NMEAFileHandler"), "handle",
      lambda h, lab, i: path(f"NMEA{i}", lab))
reuse("QuantileFilter", new(PR + "QuantileFilter"), "filter",
      lambda h, lab, i: labelled(h.vec("nd", f"pts{i}", h.num(
          iv=(0, 1, False, False), lab=lab), ne=i == 1), lab))
reuse("BoundFilter", new(PR + "BoundFilter"), "filter",
      lambda h, lab, i: labelled(h.vec("nd", f"pts{i}", h.num(
          iv=(0, 1, False, False), lab=lab), ne=i == 1), lab))
reuse("RemoveOnlyImputator", new(PR + "RemoveOnlyImputator"), "impute",
      d_of())
reuse("FillLocalImputator", new(PR + "FillLocalImputator"), "impute", d_of())
reuse("LazySmoother", new(PR + "LazySmoother"), "smooth", d_of(none=False))
reuse("AffineSmoother", new(PR + "AffineSmoother"), "smooth",
      d_of(none=False))
reuse("ZeroInjector", new(PR + "ZeroInjector", int1), "inject", wp_of)
reuse("LazyExpander", new(PIPE + "LazyExpander"), "expand", d_of(none=False))
for _m in ("delete", "ignore"):
    reuse(f"WeatherExpander({_m})",
          new(PIPE + "WeatherExpander", weather_model, _m), "expand",
          d_of(none=False))
for _n, _mk in WEIGHERS.items():
    reuse(f"{_n} nd", _mk, "weigh", rows_of())
    reuse(f"{_n} data", _mk, "weigh",
          d_of(("TWS", "TWA", "BSP"), none=False))


def two_tables(h, lab, i):
    keys = (("TWS", "TWA", "BSP"), ("lat", "lon", "SOG"))[i % 2]
    return labelled(data(h, keys, lab=lab, space=f"rows{i}"), lab)


for _n in ("CylindricMeanWeigher", "CylindricMemberWeigher"):
    reuse(f"{_n} other columns", WEIGHERS[_n], "weigh", two_tables,
          tags=("other-columns",))
reuse("FluctuationWeigher",
      new(PR + "FluctuationWeigher",
          lambda h: h.seq([const("TWS"), const("TWA")]),
          prim("timedelta"), lambda h: h.seq([FLOAT, FLOAT])), "weigh",
      d_of(none=False))
reuse("FuzzyWeigher", lambda h: h.new(
    "FuzzyWeigher()", PR + "FuzzyWeigher", fuzzy(h)[1]), "weigh",
    d_of(("TWS", "TWA", "BSP"), none=False))
for _n, _mk in INTERPOLATORS.items():
    reuse(_n + "Interpolator", _mk, "interpolate",
          lambda h, lab, i: (wp_of(h, lab, i), labelled(h.fixed(
              "nd", [h.ws(lab), h.wa(lab)]), lab)), stats=False)
for _n, _mk in NEIGHBOURHOODS.items():
    reuse(_n, _mk, "is_contained_in",
          lambda h, lab, i: labelled(h.rows("nd", f"pts{i}", [
              h.num("WS", lab=lab), h.num("WA", ang="deg", lab=lab)]), lab),
          stats=False)
for _n in ("UniformRandomSampler", "FibonacciSampler", "ArchimedeanSampler"):
    reuse(_n, new(PR + _n, int1), "sample", rows_of(), stats=False)
for _n in ("TableExtension", ):
    for _r in ("min_max", "auto", "none"):
        reuse(f"{_n}({_r})", new(
            PIPE + _n, NONE if _r == "none" else _r, neighbourhood,
            lambda h: h.opaque(Comp("interpolator", {
                "interpolate": lambda I, a, st, n, lab: prim(
                    "float", role="BSP", lab=lab)}), "interpolator",
                cls=h.get(PR + "Interpolator").single())), "process", wp_of)


@entry("reuse regressors", "reuse", "component", "regressor")
def _(h):
    for n in ("ODRegressor", "LeastSquareRegressor"):
        c = h.new(n + "()", PR + n, model_func(h),
                  h.seq([FLOAT, FLOAT, FLOAT]))
        for i, lab in ((1, A1), (2, A2)):
            h.meth(f"{n}.fit#{i}", c, "fit", rows_of()(h, lab, i),
                   tags={"fit"})
            t = {"second"} if i == 2 else set()
            fn, _ = h.I.class_attr(h.st.heap[c.single()].cls,
                                   "optimal_params", h.st)
            h.call(f"{n}.optimal_params#{i}", fn, c, recv=c,
                   tags={"prop"} | t)


@entry("reuse influence models", "reuse", "component", "influence")
def _(h):
    for n in ("IdentityInfluenceModel", "WindAngleCorrectingInfluenceModel"):
        m = h.new(n + "()", MOD + n)
        for i, lab in ((1, A1), (2, A2)):
            t = {"second"} if i == 2 else set()
            h.meth(f"{n}.fit#{i}", m, "fit", d_of(INF_KEYS, False)(h, lab, i),
                   tags={"fit"})
            x = column_dict(h, INF_KEYS, lab=lab, space=f"q{i}")
            h.meth(f"{n}.remove_influence#{i}", m, "remove_influence", x,
                   tags=t)
            x = column_dict(h, INF_KEYS, lab=lab, space=f"q{i}")
            h.meth(f"{n}.add_influence#{i}", m, "add_influence", curve(h), x,
                   tags=t)


@entry("reuse quality assurance", "reuse", "component", "qa")
def _(h):
    for n in ("MinimalQualityAssurance", "ComformingQualityAssurance"):
        c = h.new(n + "()", PIPE + n)
        d = table(h)
        for i, lab in ((1, A1), (2, A2)):
            t = {"second"} if i == 2 else set()
            h.meth(f"{n}.check#{i}", c, "check", d,
                   rows_of()(h, lab, i), tags=t)


@entry("reuse extensions", "reuse", "component", "extension")
def _(h):
    smp = h.opaque(Comp("sampler", {
        "sample": lambda I, a, st, n, lab: I.ext.arr(
            st, n, (R(("comp", I.site(n), "smp")), "F"),
            [h.ws(lab), h.wa(lab)], None, extra="smp", lab=lab)}),
        "sampler", cls=h.get(PR + "Sampler").single())
    itp = h.opaque(Comp("interpolator", {
        "interpolate": lambda I, a, st, n, lab: prim(
            "float", role="BSP", lab=lab)}), "interpolator",
        cls=h.get(PR + "Interpolator").single())
    c = h.new("PointcloudExtension()", PIPE + "PointcloudExtension", smp,
              neighbourhood(h), itp)
    for i, lab in ((1, A1), (2, A2)):
        h.meth(f"PointcloudExtension.process#{i}", c, "process",
               wp_of(h, lab, i), tags={"second"} if i == 2 else set())
    for rad in (False, True):
        reg = h.new("LeastSquareRegressor()", PR + "LeastSquareRegressor",
                    model_func(h, radians=rad), h.seq([FLOAT, FLOAT, FLOAT]))
        c = h.new("CurveExtension()", PIPE + "CurveExtension", reg,
                  const(rad))
        for i, lab in ((1, A1), (2, A2)):
            h.meth(f"CurveExtension.process#{i}", c, "process",
                   wp_of(h, lab, i), tags={"second"} if i == 2 else set())


@entry("reuse weather models", "reuse", "weather")
def _(h):
    def pt(lab):
        return h.seq([V(prims=frozenset(("datetime",)), lab=frozenset(lab)),
                      h.num("LAT", ang="deg", lab=lab),
                      h.num("LON", ang="deg", lab=lab)], lab=lab)

    m = gridded(h)
    for i, lab in ((1, A1), (2, A2)):
        h.meth(f"GriddedWeatherModel.get_weather#{i}", m, "get_weather",
               pt(lab), tags={"second"} if i == 2 else set())
    for s in (True, False):
        m = h.new(f"MultiWeatherModel(sensitive={s})",
                  MOD + "MultiWeatherModel",
                  weather_model(h, name="m1"), weather_model(h, name="m2"),
                  exception_sensitive=s)
        for i, lab in ((1, A1), (2, A2)):
            h.meth(f"MultiWeatherModel.get_weather#{i}", m, "get_weather",
                   pt(lab), tags={"second"} if i == 2 else set())


@entry("reuse polar diagrams", "reuse", "pd")
def _(h):
    from .entries import DIAGRAMS, UNIT
    for n, mk in DIAGRAMS.items():
        d = mk(h)
        for i, lab in ((1, A1), (2, A2)):
            t = {"second"} if i == 2 else set()
            ang = UNIT.get(n, "deg")
            h.meth(f"{n}(ws, wa)#{i}", d, "__call__", h.ws(lab),
                   h.wa(lab, raw=True, ang=ang), tags=t)
            h.meth(f"{n}.get_slices([ws])#{i}", d, "get_slices",
                   h.seq([h.ws(lab), h.ws(lab)], lab=lab), tags=t)
            h.meth(f"{n}.get_points(wind)#{i}", d, "get_points",
                   h.rows("nd", f"q{i}", [h.ws(lab), h.wa(
                       lab, raw=True, ang=ang)]), tags=t)
