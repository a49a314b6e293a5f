"""Abstract clients: files written and read back, parameters that matter."""
from .contracts import Callable_, Comp, float_like_fn
from .domain import (
    BOOL, E0, FLOAT, INT, NONE, STR, UNK, Const, Inst, V, const, join, obj,
    prim,
)
from .entries import (
    CORE, MOD, PD, PIPE, PR, Entry, ENTRIES, entry,
)
from .harness import INF, Gap
from .nparr import R

MF = "hrosailing.core.modelfunctions"


def lpath(name):
    return prim("str", path=name, lab=frozenset(("PATH",)))


def prop_of(h, o, name):
    try:
        return h.attr(o, name)
    except Gap:
        return None


def rt_table(h, n=""):
    ws = h.vec("nd", "ws" + n, h.ws(("wsrc" + n,), iv=(0, INF, False, True)))
    wa = h.vec("nd", "wa" + n, h.wa(("asrc" + n,)))
    bsp = h.mat("nd", "wa" + n, "ws" + n, h.bsp(("bsrc" + n,)))
    return h.new("PolarDiagramTable()", PD + "PolarDiagramTable", ws, wa,
                 bsp)


TABLE_PROPS = {"wind_speeds": ("WS", "wsrc"), "wind_angles": ("WA", "asrc"),
               "boat_speeds": ("BSP", "bsrc")}


def round_trip(h, label, d, props, fmt=None, path="RT", cls=None,
               lit=False):
    """writes `d`, reads it back; the reading is judged by the rule"""
    h.rt = dict(orig=d, props=props, cls=cls, label=label, sub=None, lit=lit)
    p = lpath(path)
    a = [] if fmt is None else [const(fmt)]
    h.meth(f"{label}.to_csv({fmt or ''})", d, "to_csv", p, *a,
           tags={"rt-write"})
    return h.call(f"from_csv({label} {fmt or ''})", h.get(PD + "from_csv"),
                  p, *a, tags={"rt-read"})


@entry("round trip table", "roundtrip", "file",
       forms=("hro", "array", "orc", "opencpn"))
def _(h, form):
    round_trip(h, "table", rt_table(h), TABLE_PROPS, form)


@entry("round trip table default format", "roundtrip", "file")
def _(h):
    round_trip(h, "table", rt_table(h), TABLE_PROPS)


@entry("round trip zero table", "roundtrip", "file")
def _(h):
    ws = h.vec("nd", "ws", h.ws(("wsrc",), iv=(0, INF, False, True)))
    wa = h.vec("nd", "wa", h.wa(("asrc",)))
    d = h.new("PolarDiagramTable(ws, wa)", PD + "PolarDiagramTable", ws, wa)
    round_trip(h, "zero table", d, {
        k: TABLE_PROPS[k] for k in ("wind_speeds", "wind_angles")},
        lit=True)


@entry("round trip cloud", "roundtrip", "file")
def _(h):
    p = h.rows("nd", "pts", [h.ws(("wsrc",), iv=(0, INF, False, True)),
                             h.wa(("asrc",)), h.bsp(("bsrc",))])
    d = h.new("PolarDiagramPointcloud()", PD + "PolarDiagramPointcloud", p)
    round_trip(h, "cloud", d, dict(
        TABLE_PROPS, points=(("WS", "WA", "BSP"),
                             ("wsrc", "asrc", "bsrc"))))


def model_names(h):
    ml = h.I.load_module(MF, h.st)
    fr = h.st.heap[h.st.heap[ml].frame]
    return [k for k, v in fr.vars.items() if not k.startswith("_")
            and v.single() is not None
            and getattr(h.st.heap.get(v.single()), "kind", "") == "func"
            and h.st.heap[v.single()].info.mod.name == MF]


@entry("round trip curve", "roundtrip", "file", forms=("deg", "rad"))
def _(h, form):
    ml = h.I.load_module(MF, h.st)
    fr = h.st.heap[h.st.heap[ml].frame]
    for n in model_names(h):
        f = fr.vars[n]
        k = len(h.st.heap[f.single()].info.params) - 2
        if k <= 0:
            k = 16
        ps = [h.num(f"P{i}", lab=(f"p{i}src",)) for i in range(k)]
        r = h.call(f"PolarDiagramCurve({n})", h.get(
            PD + "PolarDiagramCurve"), f, *ps, radians=const(form == "rad"))
        if r.ret is None:
            continue
        round_trip(h, f"curve {n}", r.ret, {
            "parameters": (tuple(f"P{i}" for i in range(k)),
                           tuple(f"p{i}src" for i in range(k))),
            "curve": ("same", None), "radians": ("same", None)},
            path="RT" + n)


@entry("round trip multisails", "roundtrip", "file")
def _(h):
    ts = [rt_table(h, "1"), rt_table(h, "2")]
    names = h.seq([prim("str", role="SAIL1", lab=frozenset(("s1src",))),
                   prim("str", role="SAIL2", lab=frozenset(("s2src",)))])
    d = h.new("PolarDiagramMultiSails()", PD + "PolarDiagramMultiSails",
              h.seq(ts), names)
    round_trip(h, "multisails", d, {
        "sails": (("SAIL1", "SAIL2"), ("s1src", "s2src")),
        "diagrams": ("sub", [
            {k: (r, l + n) for k, (r, l) in TABLE_PROPS.items()}
            for n in "12"])})


@entry("round trip weather", "roundtrip", "file", "weather")
def _(h):
    t = h.vec("list", "t", prim("datetime", role="TIME",
                                lab=frozenset(("tsrc",))))
    la = h.vec("list", "la", h.num("LAT", ang="deg", lab=("lasrc",)))
    lo = h.vec("list", "lo", h.num("LON", ang="deg", lab=("losrc",)))
    at = h.seq([const("UGRID"), const("VGRID")])
    d = h.arr((R(h.space("t")), R(h.space("la")), R(h.space("lo")), "F"),
              [h.num("U", lab=("usrc",)), h.num("Vv", lab=("vsrc",))])
    m = h.new("GriddedWeatherModel()", MOD + "GriddedWeatherModel", d, t, la,
              lo, at)
    h.rt = dict(orig=m, props={
        "grid": (("TIME", "LAT", "LON"), ("tsrc", "lasrc", "losrc")),
        "data": (("U", "Vv"), ("usrc", "vsrc")),
        "attrs": ("same", None)}, label="weather model", cls=None)
    p = lpath("RTW")
    h.meth("GriddedWeatherModel.to_file()", m, "to_file", p,
           tags={"rt-write"})
    h.call("GriddedWeatherModel.from_file()",
           h.attr(h.get(MOD + "GriddedWeatherModel"), "from_file"), p,
           tags={"rt-read"})


# ------------------------------------------------- optional dependencies
@entry("from_meteostat", "optional", "weather")
def _(h):
    t0 = prim("datetime", role="TIME")
    t1 = prim("datetime", role="TIME")
    h.call("GriddedWeatherModel.from_meteostat()",
           h.attr(h.get(MOD + "GriddedWeatherModel"), "from_meteostat"),
           h.vec("list", "la", h.num("LAT", ang="deg")),
           h.vec("list", "lo", h.num("LON", ang="deg")), t0, t1,
           h.vec("list", "keys", prim("str")),
           tags={"needs:meteostat", "needs:pandas"})


@entry("NetCDFWeatherModel", "optional", "weather")
def _(h):
    r = h.call("NetCDFWeatherModel()", h.get(MOD + "NetCDFWeatherModel"),
               lpath("NC"), tags={"needs:netCDF4"})
    if r.ret is None:
        return
    h.meth("NetCDFWeatherModel.get_weather()", r.ret, "get_weather",
           h.seq([prim("datetime", role="TIME"), h.num("LAT", ang="deg"),
                  h.num("LON", ang="deg")], typ="tuple"),
           tags={"needs:netCDF4"})
