"""Abstract clients: values computed by a documented formula.

All numbers are marks with a range; results are compared with the documented
formula by random interpretation."""
import math

from .entries import CORE, entry
from .entries6 import el, exp, call, m
from .entries7 import grids
from .rules_prov import ANY, Fn, Near

WIND = {"s": (1.0, 20.0), "b": (0.5, 9.0), "p": (10.0, 170.0),
        "q": (190.0, 350.0), "r": (370.0, 530.0), "n": (-170.0, -10.0)}


def ranged(h, x, ranges):
    """marks whose first letter names their range"""
    if isinstance(x, str) and x[:1] == "@":
        lo, hi = ranges[x[1]]
        return el(h, x[1:], iv=(lo, hi, False, False))
    if isinstance(x, (list, tuple)):
        return h.seq([ranged(h, y, ranges) for y in x],
                     typ="tuple" if isinstance(x, tuple) else "list")
    return h.val(x)


def array(h, x, ranges):
    return h.quiet(h.I.ext.load_ext("numpy.array"), ranged(h, x, ranges))


def speed(sign):
    return lambda s, a, b: math.sqrt(s * s + b * b + 2 * sign * s * b *
                                     math.cos(math.radians(a)))


def angle(sign):
    def f(s, a, b):
        c = (s * math.cos(math.radians(a)) + sign * b) / speed(sign)(s, a, b)
        d = math.degrees(math.acos(max(-1.0, min(1.0, c))))
        return 360 - d if a % 360 > 180 else d
    return f


def conversions(kind, angles, WIND=WIND):
    def client(h):
        grids(h)
        h.I.generic = True
        rows = [[f"@s{i}", a, f"@b{i}"] for i, a in enumerate(angles)]
        for name, sign in (("true_wind_to_apparent", 1),
                           ("apparent_wind_to_true", -1)):
            f = CORE + "computing.convert_" + name
            x = array(h, rows, WIND) if kind == "array" else ranged(
                h, rows, WIND)
            r = call(h, f"{name}({kind})", f, x)
            want = []
            for s, a, b in rows:
                if isinstance(a, str):
                    want.append([Fn(speed(sign), s, a, b,
                                    text="the length of the wind vector"),
                                 Fn(angle(sign), s, a, b,
                                    text="the angle of the wind vector"), b])
                else:
                    want.append([
                        Fn(lambda s, b, a=a: speed(sign)(s, a, b), s, b),
                        Fn(lambda s, b, a=a: angle(sign)(s, a, b), s, b), b])
            exp(h, f"{name}({kind})", r, want)
            back = call(h, f"inverse of {name}({kind})", f.replace(
                name, "apparent_wind_to_true" if sign == 1 else
                "true_wind_to_apparent"), r)
            want = []
            for s, a, b in rows:
                turn = Fn(lambda x: x % 360, a) if isinstance(a, str) \
                    else Fn(lambda s, a=a: a % 360, s)
                want.append([s, turn, b])
            exp(h, f"inverse of {name}({kind})", back, want)
    return client


# light winds and slow boats
CALM = dict(WIND, s=(0.05, 0.6), b=(0.05, 0.6))
entry("conversion in light winds", "prov", "conversion", "units")(
    conversions("array", ("@p0", "@q1"), CALM))
entry("conversion in strong winds", "prov", "conversion", "units")(
    conversions("list", ("@p0", "@q1"), dict(WIND, s=(40.0, 90.0),
                                             b=(15.0, 40.0))))


for _k, _as in (("array", ("@p0", "@q1", "@p2")), ("list", ("@r0", "@n1")),
                ("array", ("@q0",)), ("list", (35.0, 300.0, -20.5)),
                ("array", (90.0, 270.0, "@p2"))):
    entry(f"conversion {_k} {_as}", "prov", "conversion", "units")(
        conversions(_k, _as))


@entry("influence removed from apparent wind", "prov", "rows", "conversion",
       forms=("identity", "shift"))
def _(h, form):
    """measured apparent wind becomes true wind, in the order ws, wa, bsp"""
    grids(h)
    h.I.generic = True
    inf = "hrosailing.models.influencemodel."
    if form == "identity":
        mod = h.new("IdentityInfluenceModel()", inf + "IdentityInfluenceModel")
    else:
        mod = h.new("WindAngleCorrectingInfluenceModel()",
                    inf + "WindAngleCorrectingInfluenceModel",
                    wa_shift=h.val(25))
    shift = 25 if form == "shift" else 0
    cls = h.get("hrosailing.core.data.Data")
    for angles in (("@p0", "@q1", "@p2"), ("@q0",)):
        for bsp in ("BSP", "SOG"):
            n = len(angles)
            cols = {"X": [f"@x{i}" for i in range(n)],
                    "AWA": list(angles), bsp: [f"@b{i}" for i in range(n)],
                    "AWS": [f"@s{i}" for i in range(n)]}
            d = h.quiet(cls)
            h.quiet(h.attr(d, "update"), h.dict(
                {k: ranged(h, v, dict(WIND, x=(1.0, 9.0)))
                 for k, v in cols.items()}))
            r = m(h, "remove_influence()", mod, "remove_influence", d)
            want = []
            for i, a in enumerate(angles):
                args = f"@s{i}", a, f"@b{i}"
                want.append([
                    Fn(speed(-1), *args, text="the length of the wind vector"),
                    Fn(lambda s, a, b: (angle(-1)(s, a, b) - shift) % 360,
                       *args, text="the angle of the wind vector"),
                    f"@b{i}"])
            exp(h, "remove_influence(apparent wind)", r, want)


# ------------------------------------------------------ model functions
MF = CORE + "modelfunctions."
MODEL = {"x": (1.0, 20.0), "y": (20.0, 160.0), "z": (200.0, 340.0),
         "k": (0.2, 1.5)}


def _e(x):
    return math.exp(x)


def _s(x, a, b, c, d=0.0):
    return c / (1 + _e(a - b * x)) - d * x * x


def _g(x, a, b, c, d=0.0):
    return a * _e(-(x - b) ** 2 / (2 * c)) + d


MODELS = {
    "ws_concave_dt_wa": (11, lambda x, y, a: a[0] + a[1] * x - a[2] * x * x
                         + a[3] * y + a[5] * (y - a[4]) ** 2 + a[6] * x * y
                         + a[7] * (360 - y)
                         + a[9] * ((360 - y) - a[8]) ** 2
                         + a[10] * x * (360 - y)),
    "ws_wa_s_dt": (14, lambda x, y, a: _s(x, *a[:4]) + _s(y, *a[4:8])
                   + a[8] * x * y + _s(360 - y, *a[9:13])
                   + a[13] * x * (360 - y)),
    "ws_s_dt_wa_gauss": (10, lambda x, y, a: _s(x, *a[:4]) + _g(y, *a[4:7])
                         + _g(360 - y, *a[7:10])),
    "ws_s_s_dt_wa_gauss_comb": (12, lambda x, y, a: _s(x, *a[:4])
                                + _g(y, *a[4:7]) + a[7] * x * y
                                + _g(360 - y, *a[8:11])
                                + a[11] * x * (360 - y)),
    "ws_s_wa_gauss": (9, lambda x, y, a: _s(x, *a[:3]) + _g(y, *a[3:6])
                      + _g(360 - y, *a[6:9])),
    "ws_s_wa_gauss_and_square": (10, lambda x, y, a: (
        _s(x, *a[:4]) + x * (_g(y, *a[4:7]) + _g(360 - y, *a[7:10])))
        * y * (360 - y)),
    "ws_times_wa": (1, lambda x, y, a: a[0] * x * y),
}
# the width of a gaussian decides whether its value can be told from zero
WIDTH = {"ws_s_dt_wa_gauss": (6, 9), "ws_s_s_dt_wa_gauss_comb": (6, 10),
         "ws_s_wa_gauss": (5, 8), "ws_s_wa_gauss_and_square": (6, 9)}
CENTER = {"ws_s_dt_wa_gauss": (5, 8), "ws_s_s_dt_wa_gauss_comb": (5, 9),
          "ws_s_wa_gauss": (4, 7), "ws_s_wa_gauss_and_square": (5, 8)}


def parameters(name, n):
    out, rng = [], {}
    for i in range(n):
        wide, mid = i in WIDTH.get(name, ()), i in CENTER.get(name, ())
        c = "w" if wide else "c" if mid else "k"
        out.append(f"@{c}{i}")
    return out


def model_function(name):
    n, f = MODELS[name]
    rng = dict(MODEL, w=(900.0, 4000.0), c=(40.0, 300.0))

    def client(h):
        grids(h)
        ps = parameters(name, n)
        marks = [el(h, p[1:], iv=(*rng[p[1]], False, False)) for p in ps]
        fn = h.get(MF + name)
        forms = [("arrays", ["@x0", "@x1", "@x2"], ["@y0", "@z1", "@y2"]),
                 ("numbers", "@x3", "@z3")]
        for label, xs, ys in forms:
            mk = array if isinstance(xs, list) else ranged
            r = call(h, f"{name}({label})", fn, mk(h, xs, rng),
                     mk(h, ys, rng), *marks)

            def want(x, y):
                return Fn(lambda x, y, *a: f(x, y, a), x, y, *ps,
                          text="the documented formula")
            exp(h, f"{name}({label})", r, [
                want(x, y) for x, y in zip(xs, ys)]
                if isinstance(xs, list) else want(xs, ys))
    return client


for _n in MODELS:
    entry(f"model function {_n}", "prov", "modelfunctions")(
        model_function(_n))


@entry("model functions of one variable", "prov", "modelfunctions")
def model_parts(h):
    grids(h)
    rng = dict(MODEL, w=(900.0, 4000.0), c=(40.0, 300.0), x=(1.0, 5.0))
    a = [el(h, f"k{i}", iv=(*rng["k"], False, False)) for i in range(4)]
    for name, kw, n, f in (
            ("inverted_shifted_parabola", {}, 3,
             lambda x, a, b, c: a * x + c * (x - b) ** 2),
            ("concave_function", {}, 3,
             lambda x, a, b, c: a + b * x - c * x * x),
            ("concave_function", {"sat_limit": True}, 4,
             lambda x, a, b, c, d: c - a * _e(b - x) - d * x * x),
            ("concave_function", {"downturn": False, "sat_limit": True}, 3,
             lambda x, a, b, c: c - a * _e(b - x)),
            ("s_shaped", {}, 4, lambda x, *a: _s(x, *a)),
            ("s_shaped", {"downturn": False}, 3, lambda x, *a: _s(x, *a)),
            ("gaussian_model", {}, 3, lambda x, *a: _g(x, *a)),
            ("gaussian_model", {"offset": True}, 4,
             lambda x, *a: _g(x, *a))):
        for label, xs in (("array", ["@x0", "@x1"]), ("number", "@x2")):
            mk = array if isinstance(xs, list) else ranged
            r = call(h, f"{name}({label}, {kw})", MF + name, mk(h, xs, rng),
                     *a[:n], **{k: h.val(v) for k, v in kw.items()})
            ps = [f"@k{i}" for i in range(n)]
            exp(h, f"{name}({label}, {kw})", r, [
                Fn(f, x, *ps, text="the documented formula") for x in xs]
                if isinstance(xs, list) else Fn(f, xs, *ps))


# ------------------------------------------------------------ globe models
GL = "hrosailing.models."
PLACE = {"a": (-80.0, 80.0), "o": (-170.0, 170.0), "r": (1000.0, 5000.0)}


def ball(lat, lon):
    lat, lon = math.radians(lat), math.radians(lon)
    return (math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon),
            math.sin(lat))


def between(a, o, b, p):
    """angle between two places"""
    x, y = ball(a, o), ball(b, p)
    return math.acos(sum(s * t for s, t in zip(x, y)))


def mercator(lat, lon):
    return math.radians(lon), math.asinh(math.tan(math.radians(lat)))


def great_circle(t):
    """position on the way from one place to another"""
    def f(a, o, b, p):
        x, y, w = ball(a, o), ball(b, p), between(a, o, b, p)
        u, v = math.sin((1 - t) * w) / math.sin(w), math.sin(
            t * w) / math.sin(w)
        z = [u * s + v * q for s, q in zip(x, y)]
        return (math.degrees(math.asin(z[2])),
                math.degrees(math.atan2(z[1], z[0])))
    return f


def rhumb(t):
    def f(a, o, b, p):
        x, y = mercator(a, o), mercator(b, p)
        u, v = (s + t * (q - s) for s, q in zip(x, y))
        return math.degrees(math.asin(math.tanh(v))), math.degrees(u)
    return f


def globe(kind):
    def client(h):
        grids(h)
        h.I.generic = True
        cls, R0 = ("SphericalGlobe", 21600 / 2 / math.pi) \
            if kind == "sphere" else ("FlatMercatorProjection", 3440)
        r = el(h, "r0", iv=(*PLACE["r"], False, False))
        for own in (False, True):
            g = h.new(f"{cls}({own})", GL + cls,
                      **({"earth_radius": r} if own else {}))
            rs = ["@r0"] if own else []

            def R(x):
                return x[0] if x else R0
            pts = [["@a0", "@o0"], ["@a1", "@o1"]]
            p = call(h, f"{cls}({own}).project", h.attr(g, "project"),
                     array(h, pts, PLACE))
            if kind == "sphere":
                want = [[Fn(lambda a, o, *r, k=k: R(r) * ball(a, o)[k],
                            *pt, *rs, text="the position on the globe")
                         for k in range(3)] for pt in pts]
            else:
                want = [[Fn(lambda a, o, *r, k=k: R(r) * mercator(a, o)[k],
                            *pt, *rs, text="the position on the map")
                         for k in range(2)] for pt in pts]
            exp(h, f"{cls}({own}).project", p, want)
            exp(h, f"{cls}({own}).lat_lon", call(
                h, f"{cls}({own}).lat_lon", h.attr(g, "lat_lon"), p), pts)
            for mk in (ranged, array):
                d = call(h, f"{cls}({own}).distance", h.attr(g, "distance"),
                         mk(h, ["@a0", "@o0"], PLACE),
                         mk(h, ["@a1", "@o1"], PLACE))
                if kind == "sphere":
                    f = Fn(lambda a, o, b, p, *r: R(r) * between(a, o, b, p),
                           "@a0", "@o0", "@a1", "@o1", *rs,
                           text="the length of the great circle")
                else:
                    f = Fn(lambda a, o, b, p, *r: R(r) * math.dist(
                        mercator(a, o), mercator(b, p)),
                        "@a0", "@o0", "@a1", "@o1", *rs,
                        text="the distance on the map")
                exp(h, f"{cls}({own}).distance", d, f)
            for n in (2, 5):
                s = call(h, f"{cls}({own}).shortest_path", h.attr(
                    g, "shortest_path"), ranged(h, ["@a0", "@o0"], PLACE),
                    ranged(h, ("@a1", "@o1"), PLACE), h.val(n))
                way = great_circle if kind == "sphere" else rhumb
                exp(h, f"{cls}({own}).shortest_path", s, [
                    [Fn(lambda a, o, b, p, t=t, k=k: way(t)(a, o, b, p)[k],
                        "@a0", "@o0", "@a1", "@o1",
                        text=f"the position after {t:.2f} of the way",
                        sure=t not in (0, 1))
                     for k in range(2)] for t in [
                         i / (n - 1) for i in range(n)]])
    return client


for _k in ("sphere", "map"):
    entry(f"globe model {_k}", "prov", "globes", "units")(globe(_k))


@entry("globe model known places", "prov", "globes")
def known_places(h):
    """rounding leaves results defined: equal places, the poles"""
    grids(h)
    g = h.new("SphericalGlobe()", GL + "SphericalGlobe")
    R = 21600 / 2 / math.pi
    places = ((-80., -157.), (-73., -66.), (-45., 51.), (25., 142.),
              (67., 12.), (0., 0.), (90., 20.), (52., 5.))
    for a, o in places + tuple((a, o) for a in range(-70, 80, 23)
                               for o in range(-170, 180, 29)):
        p = ranged(h, [a, o], PLACE)
        d = call(h, "SphericalGlobe.distance", h.attr(g, "distance"), p, p)
        exp(h, "SphericalGlobe.distance(same place)", d, Near(0, 1e-2))
        d = call(h, "SphericalGlobe.distance", h.attr(g, "distance"), p,
                 ranged(h, [-a, o + 180], PLACE))
        exp(h, "SphericalGlobe.distance(other side)", d,
            Near(R * math.pi, 1e-2))
        if (a, o) not in places:
            continue
        s = call(h, "SphericalGlobe.shortest_path", h.attr(
            g, "shortest_path"), p, p, h.val(3))
        exp(h, "SphericalGlobe.shortest_path(same place)", s,
            [[Near(a, 1e-5), ANY if a == 90 else Near(o, 1e-5)]] * 3)
    for a, o in ((-78., -180.), (30., 24.), (10., -93.), (50., 5.)):
        s = call(h, "SphericalGlobe.shortest_path", h.attr(
            g, "shortest_path"), ranged(h, [a, o], PLACE),
            ranged(h, [90., 0.], PLACE), h.val(3))
        exp(h, "SphericalGlobe.shortest_path(to the pole)", s,
            [[Near(a + (90 - a) * t, 1e-5), ANY] for t in (0, .5, 1)])


@entry("globe model map with moved pole", "prov", "globes", "units")
def moved_pole(h):
    grids(h)
    h.I.generic = True
    for pole, zero in (((0, 90), (0, 0)), ((30, 40), (-60, 40))):
        g = h.new(f"FlatMercatorProjection({pole})",
                  GL + "FlatMercatorProjection", ranged(h, pole, PLACE),
                  ranged(h, zero, PLACE))
        pts = [["@a0", "@o0"], ["@a1", "@o1"]]
        p = call(h, f"Mercator({pole}).project", h.attr(g, "project"),
                 array(h, pts, PLACE))
        exp(h, f"Mercator({pole}).lat_lon", call(
            h, f"Mercator({pole}).lat_lon", h.attr(g, "lat_lon"), p), pts)
