"""The abstract clients: one entry per public operation and argument form."""
from .contracts import (
    Callable_, Comp, float_like_fn, interpolate_fn, mask_fn, norm_fn, unk_fn,
)
from .domain import (
    BOOL, E0, FLOAT, INT, NONE, STR, UNK, Const, Dict, Loc, Seq, V, const,
    join, joinall, obj, prim,
)
from .harness import INF, Gap
from .nparr import R

PD = "hrosailing.polardiagram."
PR = "hrosailing.processing."
CORE = "hrosailing.core."
PIPE = "hrosailing.pipeline."
MOD = "hrosailing.models."

ENTRIES = []


class Entry:
    def __init__(self, name, fn, tags):
        self.name = name
        self.fn = fn
        self.tags = frozenset(tags)


def entry(name, *tags, forms=None):
    def deco(fn):
        if forms is None:
            ENTRIES.append(Entry(name, fn, tags))
        else:
            for f in forms:
                ENTRIES.append(Entry(
                    f"{name}[{f}]", (lambda h, f=f: fn(h, f)),
                    set(tags) | {"form:" + f}))
        return fn

    return deco


ND_LIST = ("nd", "list")


# ------------------------------------------------------------- fixtures
def interpolator(h, name="interpolator"):
    return h.opaque(Comp(name, {"interpolate": interpolate_fn}), name,
                    cls=h.get(PR + "Interpolator").single())


def neighbourhood(h, name="neighbourhood"):
    return h.opaque(Comp(name, {"is_contained_in": mask_fn}), name,
                    cls=h.get(PR + "Neighbourhood").single())


def norm(h, name="norm"):
    return h.opaque(Callable_(name, norm_fn), name)


def model_func(h, name="f", radians=False):
    c = Callable_(name, float_like_fn("BSP"))
    c.expects = {(None, 1): ("ang", "rad" if radians else "deg")}
    return h.opaque(c, name)


def ws_vec(h, form, n="ws", own=None, **k):
    return h.vec(form, n, h.ws(iv=(0, INF, False, True)), own=own, **k)


def wa_vec(h, form, n="wa", own=None, raw=True, **k):
    return h.vec(form, n, h.wa(raw=raw), own=own, **k)


def table(h, form="nd", own=False, label="PolarDiagramTable()"):
    o = (lambda s: s) if own else (lambda s: None)
    ws = ws_vec(h, form, own=o("ws_resolution"))
    wa = wa_vec(h, form, own=o("wa_resolution"))
    bsp = h.mat(form, "wa", "ws", h.bsp(), own=o("bsps"))
    return h.new(label, PD + "PolarDiagramTable", ws, wa, bsp)


def points(h, form="nd", name="pts", own=None, raw=True, ne=True,
           apparent=False, lab=()):
    if apparent:
        f = [h.ws(lab, role="AWS"), h.wa(lab, raw=raw, role="AWA"),
             h.bsp(lab)]
    else:
        f = [h.ws(lab, iv=(0, INF, False, True)), h.wa(lab, raw=raw),
             h.bsp(lab)]
    return h.rows(form, name, f, own=own, ne=ne)


def cloud(h, form="nd", own=False, label="PolarDiagramPointcloud()"):
    p = points(h, form, own="points" if own else None)
    return h.new(label, PD + "PolarDiagramPointcloud", p)


def curve(h, radians=False, label="PolarDiagramCurve()", f=None):
    f = f or model_func(h, radians=radians)
    ps = [h.num() for _ in range(3)]
    return h.new(label, PD + "PolarDiagramCurve", f, *ps,
                 radians=const(radians))


def multisails(h, pds=None, label="PolarDiagramMultiSails()", own=False,
               names=True):
    pds = pds or [table(h), table(h, label="PolarDiagramTable()#2")]
    lst = h.seq(pds, own="pds" if own else None)
    names = h.seq([STR, STR], own="sails" if own else None) if names else NONE
    return h.new(label, PD + "PolarDiagramMultiSails", lst, names)


DIAGRAMS = {
    "table": table,
    "curve": curve,
    "curve-rad": lambda h: curve(h, radians=True),
    "cloud": cloud,
    "multisails": multisails,
}


# ------------------------------------------------------- polar diagrams
@entry("PolarDiagramTable.__init__", "pd", "ctor", forms=ND_LIST)
def _(h, form):
    table(h, form, own=True)


@entry("PolarDiagramTable.__init__ defaults", "pd", "ctor")
def _(h):
    T = PD + "PolarDiagramTable"
    h.new("PolarDiagramTable(None)", T)
    h.new("PolarDiagramTable(step)", T, h.num(iv=(0, 40, True, False)),
          h.num(iv=(0, 360, True, False)))
    h.new("PolarDiagramTable(ws,wa)", T, ws_vec(h, "nd", own="ws_resolution"),
          wa_vec(h, "nd", own="wa_resolution"))


@entry("PolarDiagramPointcloud.__init__", "pd", "ctor", forms=ND_LIST)
def _(h, form):
    cloud(h, form, own=True)


@entry("PolarDiagramPointcloud.__init__ apparent", "pd", "ctor",
       forms=ND_LIST)
def _(h, form):
    p = points(h, form, own="points", apparent=True)
    h.new("PolarDiagramPointcloud(apparent)", PD + "PolarDiagramPointcloud",
          p, apparent_wind=True)


@entry("PolarDiagramMultiSails.__init__", "pd", "ctor")
def _(h):
    multisails(h, own=True)
    multisails(h, own=True, names=False, label="MultiSails(no names)")


def _args(h, form, ang="deg"):
    if form == "scalar":
        return h.ws(), h.wa(raw=True, ang=ang)
    return (ws_vec(h, form, "q", own="ws"),
            h.vec(form, "q", h.wa(raw=True, ang=ang), own="wa"))


# a curve in radians is called with radians
UNIT = {"curve-rad": "rad"}

for _nm, _mk in DIAGRAMS.items():

    def _mkentries(nm, mk):
        @entry(f"{nm}.__call__", "pd", "call", "observer", forms=(
            "scalar", "nd"))
        def _(h, form):
            d = mk(h)
            h.freeze(d, "the diagram")
            ws, wa = _args(h, form, UNIT.get(nm, "deg"))
            h.meth(f"{nm}(ws, wa)", d, "__call__", ws, wa)

        @entry(f"{nm}.get_slices", "pd", "slices", "observer")
        def _(h):
            d = mk(h)
            h.freeze(d, "the diagram")
            h.meth(f"{nm}.get_slices()", d, "get_slices")
            h.meth(f"{nm}.get_slices(ws)", d, "get_slices", h.ws())
            h.meth(f"{nm}.get_slices([ws])", d, "get_slices",
                   h.seq([h.ws(), h.ws()], own="ws"))
            h.meth(f"{nm}.get_slices([ws], n)", d, "get_slices",
                   ws_vec(h, "list", "q", own="ws"),
                   h.num(kind="int", iv=(1, INF, False, True)))
            h.meth(f"{nm}.ws_to_slices([ws])", d, "ws_to_slices",
                   ws_vec(h, "nd", "q", own="ws"))
            if nm == "multisails":
                h.meth(f"{nm}.get_slices(full)", d, "get_slices",
                       full_info=True)

        @entry(f"{nm}.get_points", "pd", "points", "observer")
        def _(h):
            d = mk(h)
            h.freeze(d, "the diagram")
            h.meth(f"{nm}.get_points()", d, "get_points")
            h.meth(f"{nm}.get_points(tuple)", d, "get_points",
                   h.seq([ws_vec(h, "list", "q1", own="wind"),
                          h.vec("list", "q2",
                                h.wa(raw=True, ang=UNIT.get(nm, "deg")),
                                own="wind")],
                         typ="tuple"))
            h.meth(f"{nm}.get_points(array)", d, "get_points",
                   h.rows("nd", "q", [h.ws(), h.wa(
                       raw=True, ang=UNIT.get(nm, "deg"))], own="wind"))

        @entry(f"{nm}.properties", "pd", "props", "observer")
        def _(h):
            d = mk(h)
            h.freeze(d, "the diagram")
            props = {
                "table": ["wind_speeds", "wind_angles", "boat_speeds"],
                "cloud": ["wind_speeds", "wind_angles", "boat_speeds",
                          "points"],
                "curve": ["radians", "parameters", "curve"],
                "curve-rad": ["radians", "parameters", "curve"],
                "multisails": ["sails", "diagrams"],
            }[nm] + ["default_points", "default_slices"]
            c = h.st.heap[d.single()].cls
            for p in props:
                fn, own = h.I.class_attr(c, p, h.st)
                if fn is None:
                    raise Gap(f"{nm}.{p} is gone")
                # the property function itself, so the call is recorded
                h.call(f"{nm}.{p}", fn, d, recv=d, tags={"prop"})

        @entry(f"{nm}.str", "pd", "str", "observer")
        def _(h):
            d = mk(h)
            h.freeze(d, "the diagram")
            for p in ("__str__", "__repr__"):
                c = h.st.heap[d.single()].cls
                fn, own = h.I.class_attr(c, p, h.st)
                if fn is not None:
                    h.meth(f"{nm}.{p}", d, p)

        @entry(f"{nm}.symmetrize", "pd", "symmetrize", "observer")
        def _(h):
            d = mk(h)
            h.freeze(d, "the diagram")
            r = h.meth(f"{nm}.symmetrize()", d, "symmetrize")
            if r.ret is not None:
                # the new diagram is used like the old one
                h.meth(f"{nm}.symmetrize()(ws, wa)", r.ret, "__call__",
                       *_args(h, "scalar", UNIT.get(nm, "deg")))
                h.meth(f"{nm}.symmetrize().get_slices([ws])", r.ret,
                       "get_slices", h.seq([h.ws(), h.ws()], own="ws"))

        @entry(f"{nm}.to_csv", "pd", "to_csv", "observer", "file")
        def _(h):
            d = mk(h)
            h.freeze(d, "the diagram")
            p = prim("str", path="P", lab=frozenset(("PATH",)))
            h.meth(f"{nm}.to_csv(path)", d, "to_csv", p)

    _mkentries(_nm, _mk)


@entry("table.to_csv formats", "pd", "to_csv", "observer", "file")
def _(h):
    d = table(h)
    h.freeze(d, "the diagram")
    for fmt in ("hro", "array", "orc", "opencpn"):
        h.meth(f"table.to_csv(fmt={fmt})", d, "to_csv",
               prim("str", path="P" + fmt, lab=frozenset(("PATH",))), fmt)


@entry("from_csv", "pd", "from_csv", "file")
def _(h):
    for fmt in ("hro", "array", "orc", "opencpn"):
        h.call(f"from_csv(fmt={fmt})", h.get(PD + "from_csv"),
               prim("str", path="X" + fmt, lab=frozenset(("PATH",))), fmt)


@entry("table.__call__ components", "pd", "call", "observer")
def _(h):
    d = table(h)
    h.freeze(d, "the diagram")
    h.meth("table(ws, wa, components)", d, "__call__", h.ws(),
           h.wa(raw=True), interpolator(h), neighbourhood(h))


@entry("cloud.__call__ components", "pd", "call", "observer")
def _(h):
    d = cloud(h)
    h.freeze(d, "the diagram")
    h.meth("cloud(ws, wa, components)", d, "__call__", h.ws(),
           h.wa(raw=True), interpolator(h), neighbourhood(h))


NEW = ("NEW",)


@entry("table.change_entries", "pd", "update", forms=ND_LIST)
def _(h, form):
    d = table(h)
    h.meth("table.change_entries(m)", d, "change_entries",
           h.mat(form, "wa", "ws", h.bsp(NEW), own="new_bsps"),
           tags={"update"})
    d = table(h)
    h.meth("table.change_entries(m?)", d, "change_entries",
           h.mat(form, "m1", "m2", h.bsp(NEW), own="new_bsps"),
           tags={"update"})
    d = table(h)
    h.meth("table.change_entries(x,ws,wa)", d, "change_entries",
           h.bsp(NEW), h.ws(NEW), h.wa(NEW, raw=True), tags={"update"})
    d = table(h)
    h.meth("table.change_entries(v,ws,wa)", d, "change_entries",
           h.vec(form, "wa", h.bsp(NEW), own="new_bsps"),
           h.vec(form, "q1", h.ws(NEW), own="ws"),
           h.vec(form, "q2", h.wa(NEW, raw=True), own="wa"),
           tags={"update"})


@entry("cloud.add_points", "pd", "update", forms=ND_LIST)
def _(h, form):
    d = cloud(h)
    h.meth("cloud.add_points(p)", d, "add_points",
           points(h, form, "new", own="new_pts", lab=NEW), tags={"update"})
    d = cloud(h)
    h.meth("cloud.add_points(p, apparent)", d, "add_points",
           points(h, form, "new2", own="new_pts", apparent=True, lab=NEW),
           True, tags={"update"})
    # anything the caller may pass, valid or not
    d = cloud(h)
    bad = h.rows(form, "new3", [h.num("WS", lab=NEW), h.wa(NEW, raw=True),
                                h.bsp(NEW)], own="new_pts")
    h.meth("cloud.add_points(any)", d, "add_points", bad, tags={"update"})
    d = cloud(h)
    bad = h.rows(form, "new4", [h.num("AWS", lab=NEW),
                                h.wa(NEW, raw=True, role="AWA"),
                                h.bsp(NEW)], own="new_pts")
    h.meth("cloud.add_points(any apparent)", d, "add_points", bad, True,
           tags={"update"})


# ---------------------------------------------------------------- core
DT = prim("datetime")


def colvals(h, keys, lab=()):
    out = {}
    for k in keys:
        if k == "datetime":
            v = prim("datetime", lab=frozenset(lab))
        elif k in ("TWS", "AWS"):
            v = h.ws(lab, iv=(0, INF, False, True),
                     role="WS" if k == "TWS" else "AWS")
        elif k in ("TWA", "AWA"):
            v = h.wa(lab, raw=True, role="WA" if k == "TWA" else "AWA")
        elif k in ("BSP", "SOG"):
            v = h.bsp(lab)
        elif k == "lat":
            v = h.num("LAT", ang="deg", lab=lab)
        elif k == "lon":
            v = h.num("LON", ang="deg", lab=lab)
        elif k == "HDT":
            v = h.num("HDG", ang="deg", lab=lab)
        else:
            v = h.num(lab=lab)
        out[k] = v
    return out


STDKEYS = ("datetime", "lat", "lon", "TWS", "TWA", "BSP")


def column_dict(h, keys=STDKEYS, own=None, none=False, space="rows", ne=True,
                lab=(), suffix=""):
    sp = h.space(space, ne)
    cols = {}
    for k, v in colvals(h, keys, lab).items():
        if none:
            v = join(v, NONE)
        cols[k + suffix] = h.seq((), v, sp)
    return h.dict(cols, own=own)


def data(h, keys=STDKEYS, none=False, own=None, ne=True, lab=(),
         space="rows"):
    """a Data object whose columns are private copies"""
    d = column_dict(h, keys, none=none, ne=ne, lab=lab, space=space)
    v = h.quiet(h.attr(h.get(CORE + "data.Data"), "from_dict"), d)
    # from_dict may keep the lists: those are private to this harness
    return h.own(v, own) if own else v


def wpoints(h, n=3, name="pts", own=None, ne=True, lab=(), weights=True):
    f = [h.ws(lab, iv=(0, INF, False, True)), h.wa(lab), h.bsp(lab)][:n]
    p = h.rows("nd", name, f, ne=ne)
    w = h.vec("nd", name, h.num(iv=(0, INF, False, True), lab=lab), ne=ne)
    v = h.quiet(h.get(CORE + "data.WeightedPoints"), p, w)
    return h.own(v, own) if own else v


@entry("core.convert wind", "core", forms=ND_LIST)
def _(h, form):
    h.call("convert_apparent_wind_to_true",
           h.get(CORE + "computing.convert_apparent_wind_to_true"),
           points(h, form, "aw", own="apparent_wind", apparent=True))
    h.call("convert_true_wind_to_apparent",
           h.get(CORE + "computing.convert_true_wind_to_apparent"),
           points(h, form, "tw", own="true_wind"))


@entry("core.norms", "core")
def _(h):
    v2 = h.rows("nd", "pts", [h.num("WS"), h.num("WA", ang="deg")],
                own="vec")
    v3 = h.rows("nd", "pts", [h.num("WS"), h.num("WA", ang="deg"),
                              h.bsp()], own="vec")
    h.call("euclidean_norm", h.get(CORE + "computing.euclidean_norm"), v2)
    h.call("scaled_euclidean_norm(2)",
           h.get(CORE + "computing.scaled_euclidean_norm"), v2)
    h.call("scaled_euclidean_norm(3)",
           h.get(CORE + "computing.scaled_euclidean_norm"), v3)
    r = h.do("scaled_norm", h.get(CORE + "computing.scaled_norm"), norm(h),
             h.seq([h.num(), h.num()], own="scal_factors"))
    h.call("scaled_norm()", r, v2)
    h.call("data_dict_to_numpy",
           h.get(CORE + "computing.data_dict_to_numpy"),
           column_dict(h, ("TWS", "TWA", "BSP"), own="data_dict"),
           h.seq([const("TWS"), const("TWA")], own="keys"))


@entry("core.modelfunctions", "core", "model", forms=("scalar", "nd"))
def _(h, form):
    ml = h.I.load_module("hrosailing.core.modelfunctions", h.st)
    fr = h.st.heap[h.st.heap[ml].frame]
    names = [k for k, v in fr.vars.items() if not k.startswith("_")
             and v.single() is not None
             and getattr(h.st.heap.get(v.single()), "kind", "") == "func"]
    if form == "scalar":
        ws, wa = h.ws(), h.wa()
    else:
        ws = ws_vec(h, "nd", "q", own="ws")
        wa = wa_vec(h, "nd", "q", own="wa")
    for n in names:
        info = h.st.heap[fr.vars[n].single()].info
        k = len(info.params) - 2
        ps = [h.num(lab=()) for _ in range(k if k > 0 else 16)]
        if info.mod.name != "hrosailing.core.modelfunctions":
            continue
        h.call(f"modelfunctions.{n}", fr.vars[n], ws, wa, *ps)


def data_state(h):
    return data(h, none=True)


@entry("Data.observers", "data", "observer")
def _(h):
    d = data(h, none=True)
    h.freeze(d, "the data")
    for p in ("n_rows", "n_cols", "numerical", "data"):
        c = h.st.heap[d.single()].cls
        fn, _ = h.I.class_attr(c, p, h.st)
        h.call(f"Data.{p}", fn, d, recv=d, tags={"prop"})
    h.meth("Data.keys", d, "keys")
    for t in ("builtins.dict", "builtins.tuple", "builtins.list"):
        r = h.meth(f"Data.rows({t})", d, "rows",
                   return_type=obj(_ext(t)))
    h.meth("Data.rows(keys)", d, "rows",
           h.seq([const("lat"), const("lon")], own="keys"))
    h.meth("Data.get_by_type", d, "get_by_type", obj(_ext("builtins.float")),
           tags={"view"})
    h.meth("Data.type", d, "type", "TWS")
    h.meth("Data.get_slice", d, "get_slice",
           h.seq([const("TWS"), const("TWA")], own="slice_"))
    h.meth("Data[str]", d, "__getitem__", "TWS", tags={"view"})
    h.meth("Data[int]", d, "__getitem__", INT)
    h.meth("Data[mask]", d, "__getitem__",
           h.vec("nd", "rows", BOOL, own="mask"))
    h.meth("Data[keys]", d, "__getitem__",
           h.seq([const("TWS"), const("TWA")], own="keys"))
    h.meth("Data.__contains__", d, "__contains__", "TWS")
    h.meth("Data.__str__", d, "__str__")


def _ext(p):
    from .domain import Ext
    return Ext(p)


def floats(h, n="new", own=None):
    return h.seq((), FLOAT, h.space(n), own=own)


@entry("Data failing updates", "data", "update")
def _(h):
    new = lambda: data(h, none=True)
    lab = V(prims=frozenset(("float",)), lab=frozenset(NEW))
    slab = V(prims=frozenset(("str",)), lab=frozenset(NEW))
    for nm, x in (("float", lab), ("str", slab), ("mixed", join(lab, slab))):
        d = new()
        h.meth(f"Data.extend({nm})", d, "extend", "TWS",
               h.seq((), x, h.space("new"), own="data"), tags={"update"})
        d = new()
        h.meth(f"Data.extend(new {nm})", d, "extend", "zzz",
               h.seq((), x, h.space("new"), own="data"), tags={"update"})
        d = new()
        h.meth(f"Data.append({nm})", d, "append", "TWS", x, tags={"update"})
    d = new()
    h.meth("Data.rename", d, "rename", "TWS", "TWA", tags={"update"})


@entry("Data.mutators", "data", "mutator")
def _(h):
    D = h.get(CORE + "data.Data")
    new = lambda: data(h, none=True)
    d = h.new("Data()", CORE + "data.Data")
    h.meth("Data.extend(new)", d, "extend", "k", floats(h, own="data"))
    h.meth("Data.extend(old)", d, "extend", "k", floats(h, own="data"))
    d = new()
    h.meth("Data.append", d, "append", "TWS", FLOAT)
    h.meth("Data.append(new)", d, "append", "zzz", FLOAT)
    d = new()
    h.meth("Data.update(dict)", d, "update",
           column_dict(h, own="data_dict", none=True))
    d = new()
    h.meth("Data.update(new cols)", d, "update",
           column_dict(h, ("x", "y"), own="data_dict", none=True))
    d = new()
    h.meth("Data.update(Data)", d, "update", data(h, none=True,
                                                  own="data_dict"))
    d = new()
    h.meth("Data.update(scalars)", d, "update",
           h.dict({"TWS": FLOAT, "q": STR}, own="data_dict"), compress=True)
    h.call("Data.from_dict", h.attr(D, "from_dict"),
           column_dict(h, own="dict_", none=True))
    h.call("Data.concatenate", h.attr(D, "concatenate"),
           h.seq([data(h, own="list_"), data(h, own="list_")], own="list_"))
    d = new()
    h.meth("Data.fill", d, "fill")
    d = new()
    h.meth("Data.fill(n)", d, "fill",
           h.num(kind="int", iv=(0, INF, False, True)))
    d = new()
    h.meth("Data.filter_types", d, "filter_types",
           h.seq([obj(_ext("builtins.float"))], own="type_list"))
    d = new()
    h.meth("Data.rename", d, "rename", "TWS", "other")
    d = new()
    h.meth("Data.delete(str)", d, "delete", "TWS")
    d = new()
    h.meth("Data.delete(int)", d, "delete",
           h.num(kind="int", iv=(0, INF, False, True)))
    d = new()
    h.meth("Data.delete(rows)", d, "delete",
           h.seq((), INT, h.space("del"), own="key"))
    d = new()
    h.meth("Data.delete(cols)", d, "delete",
           h.seq([const("TWS"), const("lat")], own="key"))
    for m in ("cols", "rows", "all"):
        d = new()
        h.meth(f"Data.strip({m})", d, "strip", m)
    d = new()
    h.meth("Data.hrosailing_standard_format", d,
           "hrosailing_standard_format")
    d = data(h, ("True Wind Speed", "true wind angle", "speed_over_ground",
                 "latitude"), none=True)
    h.meth("Data.hrosailing_standard_format#2", d,
           "hrosailing_standard_format")


@entry("WeightedPoints", "data")
def _(h):
    W = CORE + "data.WeightedPoints"
    p = points(h, "nd", raw=False, own="data")
    w = h.vec("nd", "pts", h.num(), own="weights")
    wp = h.new("WeightedPoints(arr)", W, p, w)
    h.new("WeightedPoints(arr, 1)", W, p, 1)
    m = h.vec("nd", "pts", BOOL, own="mask")
    h.meth("WeightedPoints[mask]", wp, "__getitem__", m)
    o = h.new("WeightedPoints(arr)#2", W,
              points(h, "nd", "pts2", raw=False, own="data"),
              h.vec("nd", "pts2", h.num(), own="weights"))
    h.own(o, "other")
    h.meth("WeightedPoints.extend", wp, "extend", o)
    dd = h.new("WeightedPoints(Data)", W, data(h, own="data"),
               h.vec("nd", "rows", h.num(), own="weights"))
    do = h.new("WeightedPoints(Data)#2", W, data(h, own="data"),
               h.vec("nd", "rows", h.num(), own="weights"))
    h.own(do, "other")
    h.meth("WeightedPoints.extend(Data)", dd, "extend", do)
    dc = h.new("WeightedPoints(dict)", W, column_dict(h, own="data"),
               h.vec("nd", "rows", h.num(), own="weights"))
    h.meth("WeightedPoints(dict)[mask]", dc, "__getitem__",
           h.vec("nd", "rows", BOOL, own="mask"))
    do = h.new("WeightedPoints(dict)#2", W, column_dict(h, own="data"),
               h.vec("nd", "rows", h.num(), own="weights"))
    h.own(do, "other")
    h.meth("WeightedPoints.extend(dict)", dc, "extend", do)


# ---------------------------------------------------------- processing
@entry("ArrayHandler", "handler", "proc", "component")
def _(h):
    c = h.new("ArrayHandler()", PR + "ArrayHandler")
    a = h.arr((R(h.space("rows")), "F"),
              list(colvals(h, ("TWS", "TWA", "BSP")).values()), own="data")
    k = h.seq([const("TWS"), const("TWA"), const("BSP")], own="data")
    h.meth("ArrayHandler.handle(arr)", c, "handle",
           h.seq([a, k], typ="tuple"))
    df = prim("unk", frame=True)
    h.meth("ArrayHandler.handle(unknown)", c, "handle", df)


@entry("CsvFileHandler", "handler", "proc", "component", "file")
def _(h):
    c = h.new("CsvFileHandler()", PR + "CsvFileHandler")
    h.meth("CsvFileHandler.handle", c, "handle",
           prim("str", path="CSV", lab=frozenset(("PATH",))))


@entry("NMEAFileHandler", "handler", "proc", "component", "file")
def _(h):
    c = h.new("NMEAFileHandler()", PR + "NMEAFileHandler")
    h.meth("NMEAFileHandler.handle", c, "handle",
           prim("str", path="NMEA", lab=frozenset(("PATH",))),
           tags={"needs:pynmea2"})
    w = h.seq((), STR, h.space("w"), own="wanted")
    c = h.new("NMEAFileHandler(wanted)", PR + "NMEAFileHandler",
              wanted_sentences=w, wanted_attributes=w)
    h.meth("NMEAFileHandler(wanted).handle", c, "handle",
           prim("str", path="NMEA", lab=frozenset(("PATH",))),
           tags={"needs:pynmea2"})
    c = h.new("NMEAFileHandler(unwanted)", PR + "NMEAFileHandler",
              unwanted_sentences=w, unwanted_attributes=w)
    h.meth("NMEAFileHandler(unwanted).handle", c, "handle",
           prim("str", path="NMEA", lab=frozenset(("PATH",))),
           tags={"needs:pynmea2"})


@entry("filters", "filter", "proc", "component")
def _(h):
    w = h.vec("nd", "pts", h.num(iv=(0, 1, False, False)), own="wts")
    c = h.new("QuantileFilter()", PR + "QuantileFilter",
              h.num(iv=(0, 100, False, False)))
    h.meth("QuantileFilter.filter", c, "filter", w)
    c = h.new("BoundFilter()", PR + "BoundFilter")
    h.meth("BoundFilter.filter", c, "filter", w)


@entry("RemoveOnlyImputator", "imputator", "proc", "component", "inplace")
def _(h):
    c = h.new("RemoveOnlyImputator()", PR + "RemoveOnlyImputator")
    h.meth("RemoveOnlyImputator.impute", c, "impute", data(h, none=True))


@entry("FillLocalImputator", "imputator", "proc", "component", "inplace")
def _(h):
    c = h.new("FillLocalImputator()", PR + "FillLocalImputator")
    h.meth("FillLocalImputator.impute", c, "impute", data(h, none=True))


@entry("smoothers", "smoother", "proc", "component", "inplace")
def _(h):
    c = h.new("LazySmoother()", PR + "LazySmoother")
    h.meth("LazySmoother.smooth", c, "smooth", data(h))
    c = h.new("AffineSmoother()", PR + "AffineSmoother")
    h.meth("AffineSmoother.smooth", c, "smooth", data(h))


@entry("ZeroInjector", "injector", "proc", "component")
def _(h):
    n = h.num(kind="int", iv=(1, INF, False, True))
    c = h.new("ZeroInjector()", PR + "ZeroInjector", n)
    w = wpoints(h, own="weighted_points")
    h.meth("ZeroInjector.inject", c, "inject", w)


INTERPOLATORS = {
    "IDW": lambda h, **k: h.new("IDWInterpolator()", PR + "IDWInterpolator",
                                **k),
    "Mean": lambda h, **k: h.new(
        "ArithmeticMeanInterpolator()", PR + "ArithmeticMeanInterpolator",
        **k),
    "ImprovedIDW": lambda h, **k: h.new(
        "ImprovedIDWInterpolator()", PR + "ImprovedIDWInterpolator", **k),
    "Shepard": lambda h, **k: h.new(
        "ShepardInterpolator()", PR + "interpolator.ShepardInterpolator",
        neighbourhood(h), **k),
}


@entry("interpolators", "interpolator", "proc")
def _(h):
    for n, mk in INTERPOLATORS.items():
        c = mk(h)
        h.freeze(c, "the interpolator")
        w = wpoints(h, own="w_pts")
        g = h.fixed("nd", [h.ws(), h.wa()], own="grid_pt")
        h.meth(f"{n}.interpolate", c, "interpolate", w, g)
        c = mk(h, norm=norm(h))
        h.freeze(c, "the interpolator")
        h.meth(f"{n}.interpolate(norm)", c, "interpolate", w, g)
    c = h.new("BilinearGridInterpolator()", PR + "BilinearGridInterpolator")
    h.meth("Bilinear.interpolate", c, "interpolate",
           wpoints(h, own="w_pts"),
           h.fixed("nd", [h.ws(), h.wa()], own="grid_pt"))


@entry("ArithmeticMeanInterpolator(distribution)", "interpolator", "proc")
def _(h):
    d = h.opaque(Callable_("distribution", float_like_fn()), "distribution")
    c = h.new("ArithmeticMeanInterpolator(d)",
              PR + "ArithmeticMeanInterpolator", distribution=d,
              params=h.seq([FLOAT], own="params"))
    h.freeze(c, "the interpolator")
    h.meth("Mean(d).interpolate", c, "interpolate",
           wpoints(h, own="w_pts"),
           h.fixed("nd", [h.ws(), h.wa()], own="grid_pt"))


def diffs(h, form, own, ne=True, name="pts"):
    return h.rows(form, name, [h.num("WS"), h.num("WA", ang="deg")], own=own,
                  ne=ne)


NEIGHBOURHOODS = {
    "Ball": lambda h: h.new("Ball()", PR + "Ball"),
    "ScalingBall": lambda h: h.new(
        "ScalingBall()", PR + "ScalingBall",
        h.num(kind="int", iv=(1, INF, False, True))),
    "Ellipsoid": lambda h: h.new(
        "Ellipsoid()", PR + "Ellipsoid",
        h.seq([h.seq([FLOAT, FLOAT]), h.seq([FLOAT, FLOAT])],
              own="lin_trans")),
    "Cuboid": lambda h: h.new("Cuboid()", PR + "Cuboid"),
    "Polytope": lambda h: h.new("Polytope()", PR + "Polytope"),
    "Polytope(mat)": lambda h: h.new(
        "Polytope(mat,b)", PR + "Polytope",
        h.arr((R(h.space("ineq")), "F"), [FLOAT, FLOAT], own="mat"),
        h.vec("nd", "ineq", FLOAT, own="b")),
}


@entry("neighbourhoods", "neighbourhood", "proc", forms=ND_LIST)
def _(h, form):
    for n, mk in NEIGHBOURHOODS.items():
        c = mk(h)
        h.meth(f"{n}.is_contained_in", c, "is_contained_in",
               diffs(h, form, "pts"))


@entry("regressors", "regressor", "proc", forms=("nd",))
def _(h, form):
    f = model_func(h)
    iv = h.seq([FLOAT, FLOAT, FLOAT], own="init_values")
    c = h.new("ODRegressor()", PR + "ODRegressor", f, iv)
    h.meth("ODRegressor.fit", c, "fit", points(h, form, own="data",
                                               raw=False), tags={"fit"})
    for p in ("model_func", "optimal_params"):
        fn, _ = h.I.class_attr(h.st.heap[c.single()].cls, p, h.st)
        h.call(f"ODRegressor.{p}", fn, c, recv=c, tags={"prop"})
    iv = h.seq([FLOAT, FLOAT, FLOAT], own="init_vals")
    c = h.new("LeastSquareRegressor()", PR + "LeastSquareRegressor", f, iv)
    h.meth("LeastSquareRegressor.fit", c, "fit",
           points(h, form, own="data", raw=False), tags={"fit"})
    for p in ("model_func", "optimal_params"):
        fn, _ = h.I.class_attr(h.st.heap[c.single()].cls, p, h.st)
        h.call(f"LeastSquareRegressor.{p}", fn, c, recv=c, tags={"prop"})


@entry("samplers", "sampler", "proc")
def _(h):
    for n in ("UniformRandomSampler", "FibonacciSampler",
              "ArchimedeanSampler"):
        c = h.new(f"{n}()", PR + n,
                  h.num(kind="int", iv=(1, INF, False, True)))
        h.freeze(c, "the sampler")
        h.meth(f"{n}.sample", c, "sample",
               points(h, "nd", own="pts", raw=False))


WEIGHERS = {
    "AllOneWeigher": lambda h: h.new("AllOneWeigher()",
                                     PR + "AllOneWeigher"),
    "CylindricMeanWeigher": lambda h: h.new(
        "CylindricMeanWeigher()", PR + "CylindricMeanWeigher"),
    "CylindricMemberWeigher": lambda h: h.new(
        "CylindricMemberWeigher()", PR + "CylindricMemberWeigher"),
    "CylindricMeanWeigher(dims)": lambda h: h.new(
        "CylindricMeanWeigher(dims)", PR + "CylindricMeanWeigher",
        dimensions=h.seq([const("TWS"), const("TWA"), const("BSP")],
                         own="dimensions")),
    "CylindricMemberWeigher(dims)": lambda h: h.new(
        "CylindricMemberWeigher(dims)", PR + "CylindricMemberWeigher",
        dimensions=h.seq([const("TWS"), const("TWA")], own="dimensions")),
    "CylindricMeanWeigher(norm)": lambda h: h.new(
        "CylindricMeanWeigher(norm)", PR + "CylindricMeanWeigher",
        norm=norm(h)),
}


def weigher_inputs(h):
    return {
        "nd": points(h, "nd", own="points", raw=False),
        "data": data(h, ("TWS", "TWA", "BSP"), own="points"),
        "empty-nd": points(h, "nd", "pts0", own="points", raw=False,
                           ne=False),
    }


def _mkweigher(n, mk):
    @entry(f"weigher {n}", "weigher", "proc", "component",
           forms=("nd", "data", "empty-nd"))
    def _(h, form):
        c = mk(h)
        h.meth(f"{n}.weigh({form})", c, "weigh", weigher_inputs(h)[form])


for _n, _m in WEIGHERS.items():
    _mkweigher(_n, _m)


@entry("weigher Fluctuation", "weigher", "proc", "component")
def _(h):
    at = h.seq([const("TWS"), const("TWA")], own="attributes")
    ub = h.seq([FLOAT, FLOAT], own="upper_bounds")
    for nm, ts in (("td", prim("timedelta")),
                   ("pair", h.seq([prim("timedelta"), prim("timedelta")]))):
        c = h.new(f"FluctuationWeigher({nm})", PR + "FluctuationWeigher",
                  at, ts, ub)
        h.meth(f"FluctuationWeigher({nm}).weigh", c, "weigh",
               data(h, own="points"))


def fuzzy(h):
    v = h.new("FuzzyVariable()", PR + "FuzzyVariable")
    a = h.meth("x > c", h.meth("x[k]", v, "__getitem__", "TWS").ret,
               "__gt__", FLOAT).ret
    return v, a


@entry("fuzzy", "fuzzy", "proc")
def _(h):
    v = h.new("FuzzyVariable()", PR + "FuzzyVariable")
    h.meth("x.__str__", v, "__str__")
    h.meth("x.__repr__", v, "__repr__")
    k = h.do("x[key]", h.attr(v, "__getitem__"), "TWS")
    h.do("x(s)", h.attr(v, "__call__"), FLOAT)
    a = h.do("x > c", h.attr(k, "__gt__"), FLOAT)
    b = h.do("x < c", h.attr(k, "__lt__"), FLOAT)
    h.do("x >= c", h.attr(k, "__ge__"), FLOAT)
    h.do("x <= c", h.attr(k, "__le__"), FLOAT)
    e = h.do("x == c", h.attr(k, "__eq__"), FLOAT)
    c = h.do("a & b", h.attr(a, "__and__"), b)
    o = h.do("a | b", h.attr(a, "__or__"), b)
    n = h.do("~a", h.attr(a, "__invert__"))
    row = h.dict({"TWS": FLOAT}, own="x")
    for nm, x in (("a", a), ("e", e), ("c", c), ("o", o), ("n", n)):
        h.call(f"{nm}(row)", x, row)
        h.meth(f"{nm}.__str__", x, "__str__")
    w = h.new("FuzzyWeigher()", PR + "FuzzyWeigher", c)
    h.meth("FuzzyWeigher.weigh(data)", w, "weigh",
           data(h, ("TWS", "TWA", "BSP"), own="points"))


def opaque_weigher(h, name):
    def weigh(I, args, st, node, lab):
        d = I.ext.desc(args.get(0, "points"), st, node)
        ax = d.axes[0] if d.rank else R(None)
        return I.ext.arr(st, node, (ax if ax != "F" else R(None),), None,
                         prim("float", lab=lab | {"W:" + name}), extra=name,
                         lab=lab)

    from .contracts import Comp
    # a user-defined weigher: an instance of a subclass of Weigher
    return subclass_instance(h, PR + "Weigher", name, {"weigh": weigh})


def subclass_instance(h, base, name, methods):
    """instance of an anonymous subclass whose methods are contracts"""
    from .domain import Class, Inst
    b = h.get(base).single()
    flds = {}
    for m, fn in methods.items():
        flds[m] = h.opaque(_Meth(name, m, fn), f"{name}.{m}")
    c = Class(None, (b,), flds, None)
    cl = h.I.fresh_loc(h.st, c, "class " + name)
    init, owner = h.I.class_attr(b, "__init__", h.st)
    il = h.I.fresh_loc(h.st, Inst(cl, {}), name)
    if init is not None:
        h.quiet(h.I.bind(init, il, h.st, h.node("init"), owner))
    return obj(il)


class _Meth:
    def __init__(self, name, meth, fn):
        self.name = name
        self.meth = meth
        self.fn = fn

    def getattr(self, I, o, h, name, st, node):
        return UNK

    def setattr(self, I, o, h, name, val, st, node):
        pass

    def call(self, I, o, h, args, st, node):
        I.emit("opaque-call", node, name=self.name, method=self.meth,
               args=args, st=st, loc=o)
        lab = I.ext.labs(args.all(), st)
        return self.fn(I, args, st, node, lab)

    def method(self, I, o, h, name, args, st, node):
        return UNK
