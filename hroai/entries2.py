"""Abstract clients: pipeline, models, cruising, plotting."""
from .contracts import (
    Callable_, Comp, float_like_fn, interpolate_fn, mask_fn, norm_fn, unk_fn,
)
from .domain import (
    BOOL, E0, FLOAT, INT, NONE, STR, UNK, Arr, Const, Dict, Inst, Loc, Opaque,
    Seq, V,
    const, join, joinall, obj, prim,
)
from .entries import (
    CORE, DIAGRAMS, MOD, ND_LIST, PD, PIPE, PR, cloud, column_dict, colvals,
    curve, data, entry, interpolator, multisails, model_func, neighbourhood, norm,
    points, table, wpoints,
)
from .harness import INF, Gap
from .interp import Args
from .nparr import R

FULLKEYS = ("datetime", "lat", "lon", "TWS", "TWA", "BSP")
STAGES = ("data_handler", "imputator", "smoother", "pre_expander_weigher",
          "pre_expander_filter", "expander", "pre_influence_weigher",
          "pre_influence_filter", "influence_model", "post_weigher",
          "post_filter", "injector", "extension", "quality_assurance")


# ---------------------------------------------------- opaque components
def mk_data(h, I, st, node, lab, keys=FULLKEYS, tag="d"):
    sp = ("comp", I.site(node), tag)
    cols = {}
    for k, v in colvals(h, keys, lab).items():
        l = I.alloc(st, node, Seq("list", [], v, sp), (tag, k))
        cols[Const(k)] = obj(l, lab=frozenset(lab))
    d = obj(I.alloc(st, node, Dict(cols, None, None), (tag, "cols")),
            lab=frozenset(lab))
    dc = h._cls["Data"]
    f = I.getattr_(dc, "from_dict", st, node)
    return I.call(f, Args([d], {}), node, st)


def mk_rows(h, I, st, node, lab, tag="r", sp=None):
    sp = sp or ("comp", I.site(node), tag)
    f = [h.ws(lab, iv=(0, INF, False, True)), h.wa(lab), h.bsp(lab)]
    return I.ext.arr(st, node, (R(sp), "F"), f, None, extra=tag,
                     lab=frozenset(lab))


def space_of(I, v, st, default):
    """index space of the rows of a table-like value"""
    todo, done = [v], set()
    while todo:
        x = todo.pop(0)
        for o in x.objs:
            if isinstance(o, Arr):
                if o.axes and o.axes[0] != "F":
                    return o.axes[0][1]
                continue
            if not isinstance(o, Loc) or o in done:
                continue
            done.add(o)
            hh = st.heap.get(o)
            if isinstance(hh, Seq):
                if hh.rest is not None and not hh.prefix:
                    return hh.space
                todo.extend(hh.prefix)
            elif isinstance(hh, Dict):
                todo.extend(hh.items.values())
                if hh.rv is not None:
                    todo.append(hh.rv)
            elif isinstance(hh, Inst):
                todo.extend(hh.fields.values())
    return default


def deep(I, v, st):
    return frozenset(I.deep_labels(v, st))


def passed(I, v, st, name):
    """labels of data after stage `name` (test data: a separate family)"""
    lab = deep(I, v, st)
    return lab | {("S2:" if "TEST" in lab else "S:") + name}


def stats_of(name):
    def fn(I, args, st, node, lab):
        d = Dict({Const("stat"): prim("float", lab=frozenset(
            ("STAT:" + name,)))}, None, None)
        return obj(I.alloc(st, node, d, ("stats", name)),
                   lab=frozenset(("STAT:" + name,)))

    return fn


def stage(h, name, cls, meths):
    """an arbitrary user component for one stage of the pipeline"""
    m = dict(meths)
    m["get_latest_statistics"] = stats_of(name)
    m["set_statistics"] = lambda I, a, st, n, lab: NONE
    return h.opaque(Comp(name, m), name,
                    cls=h.cls_of(*([cls] if isinstance(cls, str) else cls)))


def opaque_stages(h):
    h._cls = {"Data": h.get(CORE + "data.Data"),
              "WP": h.get(CORE + "data.WeightedPoints")}

    def out_data(name):
        def fn(I, args, st, node, lab):
            return mk_data(h, I, st, node,
                           passed(I, args.pos[0], st, name),
                           tag=name)

        return fn

    def weigh(name):
        def fn(I, args, st, node, lab):
            lab = passed(I, args.pos[0], st, name)
            sp = space_of(I, args.pos[0], st, ("comp", I.site(node), name))
            return I.ext.arr(st, node, (R(sp),), None,
                             h.num(iv=(0, INF, False, True), lab=lab),
                             extra=name, lab=frozenset(lab))

        return fn

    def filt(name):
        def fn(I, args, st, node, lab):
            lab = passed(I, args.pos[0], st, name)
            sp = space_of(I, args.pos[0], st, ("comp", I.site(node), name))
            return I.ext.arr(st, node, (R(sp),), None,
                             BOOL.withlab(frozenset(lab)), extra=name,
                             lab=frozenset(lab))

        return fn

    def remove(I, args, st, node, lab):
        return mk_rows(h, I, st, node,
                       passed(I, args.pos[0], st, "influence_model"),
                       "influence", space_of(I, args.pos[0], st, None))

    def inject(I, args, st, node, lab):
        lab = passed(I, args.pos[0], st, "injector")
        p = mk_rows(h, I, st, node, lab, "inject")
        w = I.ext.arr(st, node, (R(("comp", I.site(node), "inject")),), None,
                      h.num(lab=lab), extra="injw", lab=frozenset(lab))
        return I.call(h._cls["WP"], Args([p, w], {}), node, st)

    def process(I, args, st, node, lab):
        lab = passed(I, args.pos[0], st, "extension")
        return obj(I.alloc(st, node, Opaque(h._pdcls, Comp("polar diagram", {
                "__call__": interpolate_fn}), "polar diagram"),
            "polar diagram"), lab=frozenset(lab))

    def check(I, args, st, node, lab):
        d = Dict({Const("stat"): prim("float", lab=frozenset(
            deep(I, args.pos[0], st) | deep(I, args.pos[1], st)
            | {"STAT:quality_assurance"}))}, None, None)
        return obj(I.alloc(st, node, d, ("stats", "qa")))

    h._pdcls = h.get(PD + "PolarDiagram").single()
    W, F = PR + "Weigher", PR + "Filter"
    none = lambda I, a, st, n, lab: NONE
    c = {
        "data_handler": (PR + "DataHandler",
                         {"handle": out_data("data_handler")}),
        "imputator": ((PR + "imputator.Imputator", PR + "Imputator"), {"impute": out_data("imputator")}),
        "smoother": (PR + "Smoother", {"smooth": out_data("smoother")}),
        "expander": (PIPE + "Expander", {"expand": out_data("expander")}),
        "influence_model": (MOD + "InfluenceModel",
                            {"fit": none, "remove_influence": remove}),
        "injector": ((PR + "injector.Injector", PR + "Injector"), {"inject": inject}),
        "extension": (PIPE + "PipelineExtension", {"process": process}),
        "quality_assurance": (PIPE + "QualityAssurance", {"check": check}),
    }
    for p in ("pre_expander", "pre_influence", "post"):
        c[p + "_weigher"] = (W, {"weigh": weigh(p + "_weigher")})
        c[p + "_filter"] = (F, {"filter": filt(p + "_filter")})
    return {k: stage(h, k, cl, m) for k, (cl, m) in c.items()}


def raws(h, lab, own):
    return h.seq((), prim("unk", lab=frozenset((lab,))),
                 h.space("raw" + lab), own=own)


FLAGS = {
    "smoothing": ("smoother",),
    "pre_expander_weighing": ("pre_expander_weigher",),
    "pre_expander_filtering": ("pre_expander_filter",),
    "pre_influence_weighing": ("pre_influence_weigher",),
    "pre_influence_filtering": ("pre_influence_filter",),
    "post_weighing": ("post_weigher",),
    "post_filtering": ("post_filter",),
    "injecting": ("injector",),
    "testing": ("quality_assurance",),
}
FLAG_ALIAS = {
    "pre_weighing": "pre_influence_weighing",
    "pre_filtering": "pre_influence_filtering",
    "weighing": "post_weighing",
    "filtering": "post_filtering",
}
COMP_ALIAS = {
    "filter": "post_filter",
    "weigher": "post_weigher",
    "pre_filter": "pre_influence_filter",
    "pre_weigher": "pre_influence_weigher",
}


def pipe_run(h, off=(), test=True, comps=None, label="pipeline", call=None,
             **flags):
    s = comps or opaque_stages(h)
    p = h.new("PolarPipeline(components)", PIPE + "PolarPipeline", **s)
    kw = {k: const(False) for k in off}
    tr = raws(h, "TRAIN", "training_data")
    h.pipe = {"off": frozenset(
        x for k in off for x in FLAGS[FLAG_ALIAS.get(k, k)]),
        "test": test and "testing" not in off}
    args = [tr]
    if test:
        args.append(raws(h, "TEST", "test_data"))
    return p, h.meth(label, p, call or "__call__", *args, tags={"pipeline"},
                     **kw)


@entry("PolarPipeline.__call__", "pipeline", forms=("train", "train+test"))
def _(h, form):
    pipe_run(h, test=form != "train", label=f"pipeline({form})")


@entry("PolarPipeline.execute", "pipeline", "pipe-variant", forms=("train", "train+test"))
def _(h, form):
    pipe_run(h, test=form != "train", label=f"pipeline.execute({form})",
             call="execute")


def _mkoff(flag):
    @entry(f"pipeline {flag}=False", "pipeline", "pipe-variant",
           forms=("train", "train+test"))
    def _(h, form):
        pipe_run(h, off=(flag,), test=form != "train",
                 label=f"pipeline({form}, {flag}=False)")


for _f in list(FLAGS) + list(FLAG_ALIAS):
    _mkoff(_f)


@entry("pipeline everything disabled", "pipeline", "pipe-variant",
       forms=("train", "train+test"))
def _(h, form):
    pipe_run(h, off=tuple(FLAGS), test=form != "train",
             label=f"pipeline({form}, all=False)")


@entry("pipeline aliases", "pipeline", "pipe-variant")
def _(h):
    s = opaque_stages(h)
    for a, k in COMP_ALIAS.items():
        s[a] = s.pop(k)
    pipe_run(h, comps=s, label="pipeline(aliases)")


@entry("pipeline reused", "pipeline", "reuse")
def _(h):
    p, r = pipe_run(h, test=True, label="pipeline(train+test)")
    h.pipe = {"off": frozenset(), "test": False}
    h.meth("pipeline(train)#2", p, "__call__", raws(h, "TRAIN2", "training"),
           tags={"pipeline", "second"})


@entry("PolarPipeline()", "pipeline", "default")
def _(h):
    h.new("PolarPipeline()", PIPE + "PolarPipeline")


@entry("pipeline with real components", "pipeline", "real")
def _(h):
    h._cls = {"Data": h.get(CORE + "data.Data")}

    def handle(I, args, st, node, lab):
        return mk_data(h, I, st, node, deep(I, args.pos[0], st), tag="hd")

    dh = stage(h, "data_handler", PR + "DataHandler", {"handle": handle})
    for ext in ("Table", "Pointcloud"):
        kw = {}
        if ext == "Pointcloud":
            kw["extension"] = h.new(
                "PointcloudExtension(sampler)", PIPE + "PointcloudExtension",
                h.opaque(Comp("sampler", {"sample": lambda I, a, st, n, lab:
                                          I.ext.arr(st, n, (R(("comp",
                                          I.site(n), "smp")), "F"),
                                          [h.ws(lab), h.wa(lab)], None,
                                          extra="smp", lab=lab)}), "sampler",
                         cls=h.get(PR + "Sampler").single()))
        p = h.new(f"PolarPipeline({ext})", PIPE + "PolarPipeline",
                  data_handler=dh, **kw)
        h.pipe = None
        h.meth(f"pipeline(real {ext})", p, "__call__",
               raws(h, "TRAIN", "training_data"),
               raws(h, "TEST", "test_data"), tags={"pipeline-real"})


# ----------------------------------------------------------- expanders
def weather_model(h, keys=("TWS", "TWA", "current"), raises=True,
                  name="weather model", vals=None):
    from .interp import Bottom  # noqa

    def get_weather(I, args, st, node, lab):
        if raises:
            I.add_exc(("b", "ValueError"), st)
        d = Dict({Const(k): v.withlab(lab) for k, v in
                  (vals or colvals(h, keys)).items()}, None, None)
        return obj(I.alloc(st, node, d, (name, "weather")))

    return h.opaque(Comp(name, {"get_weather": get_weather}), name,
                    cls=h.get(MOD + "WeatherModel").single())


@entry("expanders", "expander", "component", "inplace")
def _(h):
    c = h.new("LazyExpander()", PIPE + "LazyExpander")
    h.meth("LazyExpander.expand", c, "expand", data(h))


@entry("WeatherExpander", "expander", "component", "inplace",
       forms=("delete", "ignore"))
def _(h, form):
    c = h.new(f"WeatherExpander({form})", PIPE + "WeatherExpander",
              weather_model(h), form)
    h.meth(f"WeatherExpander({form}).expand", c, "expand", data(h))


# ---------------------------------------------------------- extensions
@entry("TableExtension", "extension", "component",
       forms=("min_max", "auto", "none", "user"))
def _(h, form):
    res = {"min_max": const("min_max"), "auto": const("auto"),
           "none": NONE}.get(form)
    if res is None:
        res = h.seq([h.vec("list", "ws", h.ws(), own="wind_resolution"),
                     h.vec("list", "wa", h.wa(raw=True),
                           own="wind_resolution")],
                    typ="tuple", own="wind_resolution")
    c = h.new(f"TableExtension({form})", PIPE + "TableExtension", res,
              neighbourhood(h), interpolator(h))
    h.meth(f"TableExtension({form}).process", c, "process",
           wpoints(h, own="weighted_points"))


@entry("CurveExtension", "extension", "component", forms=("deg", "rad"))
def _(h, form):
    rc = Comp("regressor", {"fit": lambda I, a, st, n, lab: NONE})
    rc.expects = {("fit", 0): ("ang1", form)}
    reg = h.opaque(rc, "regressor", cls=h.get(PR + "Regressor").single())
    o = h.st.heap[reg.single()]
    o.fields = {
        "model_func": model_func(h, radians=form == "rad"),
        "optimal_params": h.arr((R(h.space("params")),), elem=FLOAT)}
    c = h.new(f"CurveExtension({form})", PIPE + "CurveExtension", reg,
              const(form == "rad"))
    h.meth(f"CurveExtension({form}).process", c, "process",
           wpoints(h, own="weighted_points"))


@entry("PointcloudExtension", "extension", "component")
def _(h):
    smp = h.opaque(Comp("sampler", {
        "sample": lambda I, a, st, n, lab: I.ext.arr(
            st, n, (R(("comp", I.site(n), "smp")), "F"),
            [h.ws(lab), h.wa(lab)], None, extra="smp", lab=lab)}),
        "sampler", cls=h.get(PR + "Sampler").single())
    c = h.new("PointcloudExtension()", PIPE + "PointcloudExtension", smp,
              neighbourhood(h), interpolator(h))
    h.meth("PointcloudExtension.process", c, "process",
           wpoints(h, own="weighted_points"))


@entry("quality assurance", "qa")
def _(h):
    for n in ("MinimalQualityAssurance", "ComformingQualityAssurance"):
        c = h.new(f"{n}()", PIPE + n)
        h.freeze(c, "the quality assurance")
        d = table(h)
        h.freeze(d, "the diagram")
        h.meth(f"{n}.check", c, "check", d,
               points(h, "nd", "test", own="test_data", raw=False))


# -------------------------------------------------------------- models
@entry("globes", "globe", "models")
def _(h):
    for n in ("FlatMercatorProjection", "SphericalGlobe"):
        g = h.new(f"{n}()", MOD + n)
        h.freeze(g, "the globe model")
        for form in ND_LIST:
            ll = h.rows(form, "ll", [h.num("LAT", ang="deg"),
                                     h.num("LON", ang="deg")], own="points")
            h.meth(f"{n}.project({form})", g, "project", ll)
            k = 2 if n.startswith("Flat") else 3
            xy = h.rows(form, "xy", [h.num() for _ in range(k)],
                        own="points")
            h.meth(f"{n}.lat_lon({form})", g, "lat_lon", xy)
            a = h.fixed(form, [h.num("LAT", ang="deg"),
                               h.num("LON", ang="deg")], own="start")
            b = h.fixed(form, [h.num("LAT", ang="deg"),
                               h.num("LON", ang="deg")], own="end")
            h.meth(f"{n}.distance({form})", g, "distance", a, b)
            h.meth(f"{n}.shortest_path({form})", g, "shortest_path", a, b)


INF_KEYS = ("TWS", "TWA", "BSP")


@entry("IdentityInfluenceModel", "influence", "models", "component")
def _(h):
    m = h.new("IdentityInfluenceModel()", MOD + "IdentityInfluenceModel")
    _influence(h, m, "IdentityInfluenceModel")


def _influence(h, m, n):
    d = data(h, INF_KEYS, own="data")
    h.meth(f"{n}.fit", m, "fit", d, tags={"fit"})
    for nm, x in (("Data", d),
                  ("dict", column_dict(h, INF_KEYS, own="data")),
                  ("scalars", h.dict(colvals(h, INF_KEYS), own="data")),
                  ("apparent", column_dict(h, ("AWS", "AWA", "BSP"),
                                           own="data")),
                  ("SOG", column_dict(h, ("TWS", "TWA", "SOG"),
                                      own="data"))):
        h.meth(f"{n}.remove_influence({nm})", m, "remove_influence", x)
    pd = curve(h)
    h.freeze(pd, "the diagram")
    for nm, x in (("dict", column_dict(h, INF_KEYS, own="influence_data")),
                  ("scalars", h.dict(colvals(h, INF_KEYS),
                                     own="influence_data"))):
        h.meth(f"{n}.add_influence({nm})", m, "add_influence", pd, x)


@entry("WindAngleCorrectingInfluenceModel", "influence", "models",
       "component")
def _(h):
    n = "WindAngleCorrectingInfluenceModel"
    m = h.new(n + "()", MOD + n)
    _influence(h, m, n)


def grid_parts(h, own=True, arrays=False):
    o = (lambda s: s) if own else (lambda s: None)
    t = h.vec("list", "t", prim("datetime"), own=o("times"))
    la = h.vec("list", "la", h.num("LAT", ang="deg"), own=o("lats"))
    lo = h.vec("list", "lo", h.num("LON", ang="deg"), own=o("lons"))
    if arrays:
        la = h.arr((R(h.space("la")),), None, h.num("LAT", ang="deg"),
                   own=o("lats"))
        lo = h.arr((R(h.space("lo")),), None, h.num("LON", ang="deg"),
                   own=o("lons"))
    at = h.seq([const("UGRID"), const("VGRID")], own=o("attrs"))
    d = h.arr((R(h.space("t")), R(h.space("la")), R(h.space("lo")), "F"),
              [h.num("U"), h.num("Vv")], own=o("data"))
    return d, t, la, lo, at


def gridded(h, own=False, arrays=False):
    return h.new("GriddedWeatherModel()", MOD + "GriddedWeatherModel",
                 *grid_parts(h, own, arrays))


@entry("GriddedWeatherModel", "weather", "models", forms=("lists", "arrays"))
def _(h, form):
    m = gridded(h, own=True, arrays=form == "arrays")
    h.freeze(m, "the weather model")
    pt = h.seq([prim("datetime"), h.num("LAT", ang="deg"),
                h.num("LON", ang="deg")], own="point")
    h.meth("GriddedWeatherModel.get_weather", m, "get_weather", pt)
    for p in ("grid", "data", "attrs"):
        fn, _ = h.I.class_attr(h.st.heap[m.single()].cls, p, h.st)
        if fn is None:
            raise Gap(f"GriddedWeatherModel.{p} is gone")
        h.call(f"GriddedWeatherModel.{p}", fn, m, recv=m, tags={"prop"})


@entry("GriddedWeatherModel file", "weather", "models", "file")
def _(h):
    m = gridded(h)
    h.freeze(m, "the weather model")
    p = prim("str", path="W", lab=frozenset(("PATH",)))
    h.meth("GriddedWeatherModel.to_file", m, "to_file", p, tags={"write"})
    h.call("GriddedWeatherModel.from_file",
           h.attr(h.get(MOD + "GriddedWeatherModel"), "from_file"), p,
           tags={"read"})


@entry("MultiWeatherModel", "weather", "models")
def _(h):
    for s in (True, False):
        m = h.new(f"MultiWeatherModel(sensitive={s})",
                  MOD + "MultiWeatherModel",
                  weather_model(h, name="m1"), weather_model(h, name="m2"),
                  exception_sensitive=s)
        h.freeze(m, "the weather model")
        h.meth(f"MultiWeatherModel(sensitive={s}).get_weather", m,
               "get_weather", h.seq([prim("datetime"), FLOAT, FLOAT],
                                    own="point"))


# ------------------------------------------------------------ cruising
def pos(h, own):
    return h.seq([h.num("LAT", ang="deg"), h.num("LON", ang="deg")],
                 typ="tuple", own=own)


CR = "hrosailing.cruising."


def some_pd(h, form):
    return {"curve": curve, "table": table, "multisails": multisails}[form](h)


@entry("convex_direction", "cruising", forms=("curve", "table",
                                              "multisails"))
def _(h, form):
    d = some_pd(h, form)
    h.freeze(d, "the diagram")
    h.call(f"convex_direction({form})", h.get(CR + "convex_direction"), d,
           h.ws(), h.num("WA", ang="deg"))


@entry("convex_direction with influence", "cruising")
def _(h):
    d = table(h)
    h.freeze(d, "the diagram")
    im = influence(h)
    h.call("convex_direction(im)", h.get(CR + "convex_direction"), d,
           h.ws(), h.num("WA", ang="deg"), im=im,
           influence_data=column_dict(h, INF_KEYS, own="influence_data"))


def influence(h):
    def add(I, args, st, node, lab):
        d = args.get(1, "influence_data")
        l = I.alloc(st, node, Seq("list", [], prim("float", role="BSP"),
                                ("comp", I.site(node), "im")), "im")
        return obj(l)

    return h.opaque(Comp("influence model", {"add_influence": add}),
                    "influence model",
                    cls=h.get(MOD + "InfluenceModel").single())


@entry("cruise", "cruising", forms=("ws_wan", "ws_wa_hdt", "uv_grd"))
def _(h, form):
    d = table(h)
    h.freeze(d, "the diagram")
    wind = {"ws_wan": [h.ws(), h.num("WDIR", ang="deg")],
            "ws_wa_hdt": [h.ws(), h.num("WA", ang="deg"),
                          h.num("HDG", ang="deg")],
            "uv_grd": [h.num("U"), h.num("Vv")]}[form]
    h.call(f"cruise({form})", h.get(CR + "cruise"), d, pos(h, "start"),
           pos(h, "end"), h.seq(wind, typ="tuple", own="wind"),
           wind_fmt=form)


@entry("cruise with influence", "cruising")
def _(h):
    d = table(h)
    h.freeze(d, "the diagram")
    h.call("cruise(im)", h.get(CR + "cruise"), d, pos(h, "start"),
           pos(h, "end"), h.seq([h.ws(), h.num("WDIR", ang="deg")],
                                typ="tuple", own="wind"),
           im=influence(h),
           influence_data=h.dict({"HEEL": FLOAT}, own="influence_data"))


def uv_model(h):
    return weather_model(h, vals={"UGRID": h.num("U"), "VGRID": h.num("Vv")})


@entry("cost_cruise", "cruising", forms=("plain", "im", "density"))
def _(h, form):
    d = curve(h)
    h.freeze(d, "the diagram")
    kw = {}
    if form == "im":
        kw["im"] = influence(h)
    if form == "density":
        kw["cost_fun_dens"] = h.opaque(Callable_(
            "cost_fun_dens", float_like_fn()), "cost_fun_dens")
    h.call(f"cost_cruise({form})", h.get(CR + "cost_cruise"), d,
           pos(h, "start"), pos(h, "end"), prim("datetime"), uv_model(h),
           **kw)


@entry("isochrone", "cruising", forms=("plain", "im"))
def _(h, form):
    d = curve(h)
    h.freeze(d, "the diagram")
    kw = {"im": influence(h)} if form == "im" else {}
    h.call(f"isochrone({form})", h.get(CR + "isochrone"), d,
           pos(h, "start"), prim("datetime"), h.num("HDG", ang="deg"),
           uv_model(h), **kw)


# ------------------------------------------------------------ plotting
@entry("plotting", "plotting", forms=("table", "cloud", "curve",
                                      "curve-rad", "multisails"))
def _(h, form):
    d = DIAGRAMS[form](h)
    h.freeze(d, "the diagram")
    for cls, meths in (("HROPolar", ("plot", "scatter")),
                       ("HROFlat", ("plot", "scatter")),
                       ("HROColorGradient", ("scatter",)),
                       ("Axes3D", ("plot_surface", "scatter"))):
        c = h.get("hrosailing.plotting.projections." + cls)
        ax = inst(h, c)
        for m in meths:
            kw = {}
            if m in ("plot", "scatter") and cls in ("HROPolar", "HROFlat"):
                kw = {"ws": h.seq([h.ws(), h.ws()], own="ws"),
                      "legend_kw": h.dict({}, own="legend_kw"),
                      "colors": h.seq([STR, STR], own="colors")}
                h.meth(f"{cls}.{m}({form}, hull)", ax, m, d,
                       use_convex_hull=True, show_legend=True, **kw)
            h.meth(f"{cls}.{m}({form})", ax, m, d, **kw)


def inst(h, c):
    """an instance whose constructor is external"""
    from .domain import Inst
    return obj(h.I.fresh_loc(h.st, Inst(c.single(), {}), "axes"))
