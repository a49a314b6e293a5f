"""Abstract clients: further processing steps on rows that carry marks."""
import datetime

from .domain import const
from .entries import CORE, MOD, PD, PIPE, PR, entry
from .entries6 import WP, call, col, data, exp, get, lst, m, state, val
from .entries7 import arr, grids
from .entries10 import at, stats
from .rules_prov import ANY, Dep, Lin, Un

INFL = MOD + "influencemodel."
POLAR = '''
def polar(ws, wa):
    return 1000 * ws + wa


class Steady:
    def __init__(self, value):
        self.value = value

    def __call__(self, ws, wa):
        return self.value
'''


@entry("influence removed", "prov", "rows",
       forms=("identity", "shift", "no shift"))
def _(h, form):
    grids(h)
    if form == "identity":
        mod = h.new("IdentityInfluenceModel()",
                    INFL + "IdentityInfluenceModel")
    else:
        kw = {"wa_shift": const(25)} if form == "shift" else {}
        mod = h.new("WindAngleCorrectingInfluenceModel()",
                    INFL + "WindAngleCorrectingInfluenceModel", **kw)
    was = [30.0, 10.0, 350.0, 200.0]
    sh = 25 if form == "shift" else 0
    want = [(x - sh) % 360 for x in was]
    for keys in (("TWS", "TWA", "BSP"), ("SOG", "A", "TWA", "TWS"),
                 ("SOG", "BSP", "TWA", "TWS", "AWA", "AWS")):
        cols = {k: was if k == "TWA" else col(k.lower(), 4) for k in keys}
        s = "bsp" if "BSP" in keys else "sog"
        d = data(h, cols)
        r = m(h, "remove_influence()", mod, "remove_influence", d)
        exp(h, "remove_influence()", r,
            [[f"@tws{i}", want[i], f"@{s}{i}"] for i in range(4)])
        state(h, "remove_influence(): data", d, cols, 4)
    d = h.dict({"BSP": arr(h, col("bsp", 4)), "TWA": arr(h, was),
                "TWS": arr(h, col("tws", 4))})
    exp(h, "remove_influence(arrays)",
        m(h, "remove_influence()", mod, "remove_influence", d),
        [[f"@tws{i}", want[i], f"@bsp{i}"] for i in range(4)])
    for awa in (col("awa"), [30.0, 200.0, 350.0]):
        d = data(h, {"AWA": awa, "BSP": col("bsp", 3),
                     "AWS": col("aws", 3)})
        r = m(h, "remove_influence(apparent)", mod, "remove_influence", d)
        exp(h, "remove_influence(apparent)", r, [
            [Dep([f"@aws{i}", f"@bsp{i}"]), Dep([f"@aws{i}", f"@bsp{i}"]),
             f"@bsp{i}"] for i in range(3)])
    for bad in ({"TWA": col("a"), "BSP": col("b")},
                {"TWS": col("a"), "AWA": col("b"), "BSP": col("c")}):
        h.call("remove_influence(no wind)", h.attr(mod, "remove_influence"),
               data(h, bad), tags={"rejects:ValueError"})


@entry("influence added", "prov", "rows",
       forms=("identity", "shift", "no shift"))
def _(h, form):
    grids(h)
    pd = h.get(h.client("boat", POLAR) + ".polar")
    if form == "identity":
        mod = h.new("IdentityInfluenceModel()",
                    INFL + "IdentityInfluenceModel")
    else:
        kw = {"wa_shift": const(25)} if form == "shift" else {}
        mod = h.new("WindAngleCorrectingInfluenceModel()",
                    INFL + "WindAngleCorrectingInfluenceModel", **kw)
    sh = 25 if form == "shift" else 0
    was = [30.0, 350.0, 200.0]
    d = val(h, {"TWA": was, "X": col("x"), "TWS": col("w")})
    exp(h, "add_influence(list)", m(h, "add_influence()", mod,
                                    "add_influence", pd, d),
        [Lin({f"@w{i}": 1000, None: (x + sh) % 360})
         for i, x in enumerate(was)])
    if form != "identity":
        d = h.dict({"TWA": arr(h, was), "TWS": arr(h, col("w"))})
        exp(h, "add_influence(array)", m(h, "add_influence()", mod,
                                         "add_influence", pd, d),
            [Lin({f"@w{i}": 1000, None: (x + sh) % 360})
             for i, x in enumerate(was)])
    for x in was:
        d = val(h, {"TWA": x, "TWS": "@w", "X": "@x"})
        exp(h, "add_influence(single)", m(h, "add_influence()", mod,
                                          "add_influence", pd, d),
            Lin({"@w": 1000, None: (x + sh) % 360}))


@entry("filters", "prov", "rows", "share", forms=("bound", "quantile"))
def _(h, form):
    grids(h)
    wts = ((.3, .7, .5, 1., 0.), (.1, .1, .1), (1., .25, .75, .5, 0., .9, .6),
           (.5,), (.2, .2, .9, .2, .8, .2, .6))

    def check(label, f, ws, want):
        r = m(h, f"{label}.filter()", f, "filter", arr(h, list(ws)))
        exp(h, f"{label}.filter()", r, want)
        stats(h, label, f, {"n_filtered_points": want.count(False),
                            "n_rows": want.count(True), "error": ANY})

    if form == "bound":
        for lo, hi, args in ((.5, 1, ()), (.25, .7, (const(.25), const(.7)))):
            f = h.new("BoundFilter()", PR + "BoundFilter", *args)
            for ws in wts:
                check("BoundFilter", f, ws, [lo <= x <= hi for x in ws])
        return
    for p in (50, 25, 0, 100, 75):
        f = h.new("QuantileFilter()", PR + "QuantileFilter",
                  *(() if p == 50 else (const(p),)))
        for ws in wts:
            # as many of the lowest as possible, less than the percentage
            s = sorted(ws)
            x = (len(s) - 1) * p / 100
            i = int(x)
            q = s[i] + (s[min(i + 1, len(s) - 1)] - s[i]) * (x - i)
            if i != x and s[i] != s[min(i + 1, len(s) - 1)] and any(
                    abs(y - q) < 1e-9 for y in s):
                continue
            check("QuantileFilter", f, ws, [y >= q for y in ws])
        exp(h, "QuantileFilter.filter([])", m(
            h, "QuantileFilter.filter([])", f, "filter", arr(h, [])), [])


@entry("zeros injected", "prov", "rows")
def _(h):
    grids(h)
    for ws, n, want in (((3., 7., 5.), 3, (3, 5, 7)),
                        ((4., 4.), 2, (4, 4)),
                        ((9., 1., 3., 2.), 5, (1, 3, 5, 7, 9)),
                        ((6., 2.), 1, None)):
        inj = h.new("ZeroInjector()", PR + "ZeroInjector", const(n))
        rows = [[w, 40. + 10 * i, f"@b{i}"] for i, w in enumerate(ws)]
        p = h.new("WeightedPoints()", WP, arr(h, rows),
                  arr(h, [.5] * len(ws)))
        r = m(h, "ZeroInjector.inject()", inj, "inject", p)
        exp(h, "ZeroInjector.inject(): data", h.attr(r, "data"),
            Un([w, a, 0] for a in (0, 360) for w in want) if want else
            Un([ANY, a, 0] for a in (0, 360)))
        exp(h, "ZeroInjector.inject(): weights", h.attr(r, "weights"),
            [1] * 2 * n)
        stats(h, "ZeroInjector", inj, {"n_injected": 2 * n})
        exp(h, "ZeroInjector.inject(): input", h.attr(p, "data"), rows)


PARTS = '''
import numpy as np
from hrosailing.processing import Interpolator, Neighbourhood, Sampler, \\
    Regressor


class Near(Neighbourhood):
    def is_contained_in(self, pts):
        pts = np.asarray(pts)
        return (abs(pts[:, 0]) < 1.5) & (abs(pts[:, 1]) < 15)


class First(Interpolator):
    """boat speed of the last point taken, its weight and the place"""

    def interpolate(self, w_pts, grid_pt):
        return (w_pts.data[-1, 2] + 100 * w_pts.weights[-1]
                + 1000 * grid_pt[0] + 1000000 * grid_pt[1])


class Given(Sampler):
    def sample(self, pts):
        return np.array([[6.0, 90.0], [10.0, 30.0], [4.5, 60.0],
                         [float(len(pts)), 200.0]])


class Fit(Regressor):
    def __init__(self):
        self.data = None

    @property
    def model_func(self):
        return speed

    @property
    def optimal_params(self):
        return self.params

    def fit(self, data):
        self.data = data
        self.params = (data[0, 2], data[1, 2])

    def set_statistics(self, *args):
        pass


def speed(ws, wa, *params):
    return params[0]
'''
# ws, wa of the points; the nearest grid points
PTS = ((4., 30.), (6., 60.), (8., 85.), (4.5, 95.), (7., 60.), (9.4, 30.))
DEF = PTS + ((10.6, 58.),)


def cloud(h, pts=PTS):
    n = len(pts)
    return h.new("WeightedPoints()", WP, arr(h, [
        [ws, wa, f"@b{i}"] for i, (ws, wa) in enumerate(pts)]),
        arr(h, col("w", n)))


def near(ws, wa, pts=PTS):
    i = [i for i, p in enumerate(pts)
         if abs(p[0] - ws) < 1.5 and abs(p[1] - wa) < 15]
    return Lin({f"@b{i[-1]}": 1, f"@w{i[-1]}": 100,
                None: 1000 * ws + 1000000 * wa}) if i else 0


def parts(h):
    mod = h.client("parts", PARTS)
    return lambda n, *a: h.new(n + "()", f"{mod}.{n}", *a)


EXT = PIPE + "extensions."


@entry("table made of points", "prov", "rows",
       forms=("given", "given wa", "min_max", "auto", "steps"))
def _(h, form):
    grids(h)
    p = parts(h)
    pts = PTS
    if form == "given":
        WS, WA = (4, 6, 8), (30, 60, 90, 150)
        res = h.seq([lst(h, 8, 4, 6), lst(h, 90, 30, 150, 60)], typ="tuple")
    elif form == "given wa":
        WS, WA = (4, 8), (30, 60, 90)
        res = h.seq([arr(h, [4., 8.]), arr(h, [30., 60., 90.])], typ="tuple")
    elif form == "min_max":
        WS, WA = (4, 6, 8), tuple(range(5, 356, 5))
        res = None
        pts = tuple((min(x, 8.), y) for x, y in PTS)
    elif form == "auto":
        WS, WA = (4, 9), (30, 95)
        res = const("auto")
    else:
        WS, WA = (10, 20, 30), tuple(range(30, 360, 30))
        res = h.seq([const(10), const(30)], typ="tuple")
    kw = {"neighbourhood": p("Near"), "interpolator": p("First")}
    if res is not None:
        kw["wind_resolution"] = res
    ext = h.new("TableExtension()", EXT + "TableExtension", **kw)
    for k in range(2):
        r = m(h, "TableExtension.process()", ext, "process", cloud(h, pts))
        exp(h, "TableExtension.process(): wind_speeds",
            h.attr(r, "wind_speeds"), list(WS))
        exp(h, "TableExtension.process(): wind_angles",
            h.attr(r, "wind_angles"), list(WA))
        exp(h, "TableExtension.process(): boat_speeds",
            h.attr(r, "boat_speeds"),
            [[near(ws, wa, pts) for ws in WS] for wa in WA])
        # the same component once more, on other data
        pts = ((4., 30.), (8.9, 95.), (8.8, 60.), (4.3, 88.))
        if form != "auto" and k == 0 and form != "given":
            break


@entry("points made of points", "prov", "rows")
def _(h):
    grids(h)
    p = parts(h)
    ext = h.new("PointcloudExtension()", EXT + "PointcloudExtension",
                p("Given"), p("Near"), p("First"))
    r = m(h, "PointcloudExtension.process()", ext, "process",
          cloud(h, DEF + ((6.5, 195.),)))
    d = DEF + ((6.5, 195.),)
    exp(h, "PointcloudExtension.process(): points", h.attr(r, "points"),
        Un([ws, wa, near(ws, wa, d)] for ws, wa in (
            (6., 90.), (10., 30.), (4.5, 60.), (8., 200.))))


@entry("curve made of points", "prov", "rows", "units",
       forms=("degrees", "radians"))
def _(h, form):
    grids(h)
    p = parts(h)
    f = p("Fit")
    ext = h.new("CurveExtension()", EXT + "CurveExtension", f,
                *((const(True),) if form == "radians" else ()))
    w = h.new("WeightedPoints()", WP, arr(h, [
        [f"@s{i}", f"@a{i}", f"@b{i}"] for i in range(3)]),
        arr(h, col("w", 3)))
    r = m(h, "CurveExtension.process()", ext, "process", w)
    k = 3.141592653589793 / 180 if form == "radians" else 1
    exp(h, "CurveExtension.process(): data of the fit", h.attr(f, "data"),
        [[f"@s{i}", Lin({f"@a{i}": k}), f"@b{i}"] for i in range(3)])
    exp(h, "CurveExtension.process(): input", h.attr(w, "data"),
        [[f"@s{i}", f"@a{i}", f"@b{i}"] for i in range(3)])
    exp(h, "CurveExtension.process(): parameters", h.attr(r, "parameters"),
        ["@b0", "@b1"])
    exp(h, "CurveExtension.process(): radians", h.attr(r, "radians"),
        form == "radians")


CSV = PR + "CsvFileHandler"
FRAME = '''
import csv
content = []


def put(text):
    content.append(text)


class Frame:
    def __init__(self, columns):
        self.columns = columns

    def to_dict(self, orient="dict"):
        if orient != "list":
            raise ValueError(orient)
        return {k: list(v) for k, v in self.columns.items()}


def read_csv(path, *args, **kwargs):
    return Frame(content[-1])


def write(path, rows):
    with open(path, "w", newline="", encoding="utf-8") as file:
        w = csv.writer(file)
        for row in rows:
            w.writerow(row)
'''


@entry("csv handler", "prov", "rows")
def _(h):
    csv_handler(h, "frame")


@entry("csv handler without pandas", "prov", "rows", "without:pandas")
def _(h):
    csv_handler(h, "file")


def csv_handler(h, form):
    grids(h)
    mod = h.client("frames", FRAME)
    stamps = ["2023-04-05 10:00:01.0", "2023-04-05 10:00:02.5",
              "2023-04-05 10:00:04.0"]
    times = at(*[-50279 + x - 0 for x in (0, 1.5, 3)])
    stamps, times = [[x[i] for i in (1, 2, 0)] for x in (stamps, times)]
    for keys in (("TWS", "boat speed", "time", "TWA"), ("A", "lat"),
                 ("datetime", "B", "A", "lon", "Wind_Angle")):
        cols = {k: stamps if "time" in k else col("abcdefg"[j])
                for j, k in enumerate(keys)}
        hd = h.new("CsvFileHandler()", CSV)
        if form == "frame":
            h.I.stubs["pandas.read_csv"] = h.get(mod + ".read_csv")
            h.quiet(h.get(mod + ".put"), val(h, cols))
        else:
            h.quiet(h.get(mod + ".write"), const("data.csv"), val(
                h, [list(keys)] + [[c[i] for c in cols.values()]
                                   for i in range(3)]))
        r = m(h, "CsvFileHandler.handle()", hd, "handle", const("data.csv"))
        std = {"boat speed": "BSP", "Wind_Angle": "TWA"}
        want = {std.get(k, k): times if "time" in k else c
                for k, c in cols.items()}
        state(h, "CsvFileHandler.handle()", r, want, 3)
        stats(h, "CsvFileHandler", hd, {"n_rows": 3, "n_cols": len(keys)})
    if form == "file":
        # a record with an empty field is refused or stays a record
        h.quiet(h.get(mod + ".write"), const("gap.csv"), val(
            h, [["A", "B"], ["@a0", "@b0"], ["", "@b1"], ["@a2", "@b2"]]))
        r = h.call("CsvFileHandler.handle(gap)", h.attr(hd, "handle"),
                   const("gap.csv")).ret
        if r is not None:
            state(h, "CsvFileHandler.handle(gap)", r, {
                "A": ["@a0", ANY, "@a2"], "B": col("b", 3)}, 3)


NMEA = PR + "NMEAFileHandler"
SENTENCES = '''
KNOWN = {}


class Sentence:
    def __init__(self, fields, values):
        self.fields = fields
        for (_, attribute, *_), value in zip(fields, values):
            setattr(self, attribute, value)


WIND = (("Wind angle", "wind_angle", float), ("Reference", "reference"),
        ("Wind speed", "wind_speed", float))
PLACE = (("Latitude", "lat"), ("Latitude Direction", "lat_dir"),
         ("Longitude", "lon"), ("Longitude Direction", "lon_dir"),
         ("Timestamp", "timestamp"))
SPEED = (("Heading true degrees", "heading"),
         ("Water speed knots", "water_speed_knots"))


def put(path, words):
    with open(path, "w", encoding="utf-8") as file:
        for word in words:
            file.write(word)


def know(word, kind, values):
    fields = WIND if kind == "w" else PLACE if kind == "p" else SPEED
    KNOWN[word] = Sentence(fields, values)


def parse(line, *args, **kwargs):
    return KNOWN[line]
'''


@entry("NMEA handler rows", "prov", "rows", forms=(
    "all", "wanted", "unwanted", "attributes", "unwanted attributes",
    "all types", "iterables", "angles"))
def _(h, form):
    grids(h)
    mod = h.client("sentences", SENTENCES)
    h.I.stubs["pynmea2.parse"] = h.get(mod + ".parse")
    lines = [("$IIMWV,1\n", "w", ["@a0", "R", "@s0"]),
             ("$IIVHW,2\n", "s", ["@h0", "@b0"]),
             ("$IIMWV,3\n", "w", ["@t0", "T", "@w0"]),
             ("$GPGLL,4\n", "p", ["5251.6", "N", "01015.0", "E",
                                  "101112.50"]),
             ("$IIMWV,5\n", "w", ["@a1", "R", "@s1"]),
             ("$IIMWV,6\n", "w", ["@t1", "T", "@w1"]),
             ("$GPGLL,7\n", "p", ["4906.0", "S", "00130.0", "W",
                                  "235958.00"]),
             ("$IIVHW,8\n", "s", ["@h1", "@b1"])]
    for w, k, vs in lines:
        h.quiet(h.get(mod + ".know"), const(w), const(k), val(h, vs))
    h.quiet(h.get(mod + ".put"), const("log.vdr"), val(
        h, [w for w, k, v in lines]))
    wind = {"AWA": ["@a0", "@a1"], "AWS": ["@s0", "@s1"],
            "TWA": ["@t0", "@t1"], "TWS": ["@w0", "@w1"]}
    place = {"lat": [52.86, -49.1], "lon": [10.25, -1.5], "time": [
        datetime.time(10, 11, 12, 500000),
        datetime.time(23, 59, 58)]}
    speed = {"BSP": ["@b0", "@b1"], "Heading true degrees": ["@h0", "@h1"]}
    kw, want = {}, dict(wind, **speed, **place)
    if form == "wanted":
        kw = {"wanted_sentences": lst(h, "MWV", "VHW")}
        want = dict(wind, **speed)
    elif form == "iterables":
        kw = {"wanted_sentences": h.seq([const("VHW"), const("GLL")],
                                        typ="tuple"),
              "wanted_attributes": h.seq(
                  [const("lat"), const("Water speed knots")], typ="tuple")}
        want = {"lat": place["lat"], "BSP": speed["BSP"]}
    elif form == "unwanted":
        kw = {"unwanted_sentences": lst(h, "GLL", "VHW")}
        want = wind
    elif form == "attributes":
        kw["wanted_attributes"] = lst(h, "lon", "time",
                                      "Heading true degrees")
        want = {"lon": place["lon"], "time": place["time"],
                "Heading true degrees": speed["Heading true degrees"]}
    elif form == "unwanted attributes":
        kw = {"unwanted_attributes": lst(h, "Latitude", "Water speed knots")}
        want = {k: v for k, v in want.items() if k not in ("lat", "BSP")}
    elif form == "all types":
        kw = {"post_filter_types": const(False)}
        want.update({"Latitude Direction": ["N", "S"],
                     "Longitude Direction": ["E", "W"]})
    elif form == "angles":
        kw["wanted_attributes"] = lst(h, "Wind angle", "Reference", "lat")
        want = {k: want[k] for k in ("AWA", "TWA", "lat")}
    hd = h.new("NMEAFileHandler()", NMEA, **kw)
    r = m(h, "NMEAFileHandler.handle()", hd, "handle", const("log.vdr"))
    state(h, "NMEAFileHandler.handle()", r, want, 2)
    stats(h, "NMEAFileHandler", hd, {"n_rows": 2, "n_cols": len(want)})
