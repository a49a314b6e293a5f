"""Abstract clients: processing steps keep rows together."""
import datetime
import itertools

from .domain import const
from .entries import CORE, MOD, PD, PIPE, PR, entry
from .entries6 import (
    DATA, WP, call, col, data, exp, get, lst, m, state, val,
)
from .entries7 import arr, grids
from .entries9 import GRID
from .rules_prov import ANY, Cols, Lin, Mean, Un

T0 = datetime.datetime(2023, 4, 5, 23, 58)


def at(*secs):
    """time stamps, None for a missing one"""
    return [None if s is None else T0 + datetime.timedelta(seconds=s)
            for s in secs]


IMP = PR + "RemoveOnlyImputator"
FILL = PR + "FillLocalImputator"


@entry("imputator removing rows", "prov", "rows")
def _(h):
    grids(h)
    for gaps in ((), (1,), (0, 3), (0, 1, 2, 3)):
        cols = {"datetime": at(0, 10, 20, 30), "A": col("a", 4),
                "B": col("b", 4)}
        for i in gaps:
            cols[("A", "B", "datetime")[i % 3]][i] = None
        imp = h.new("RemoveOnlyImputator()", IMP)
        d = data(h, cols)
        r = m(h, "RemoveOnlyImputator.impute()", imp, "impute", d)
        keep = [i for i in range(4) if i not in gaps]
        state(h, "RemoveOnlyImputator.impute()", r,
              {k: [c[i] for i in keep] for k, c in cols.items()}, len(keep))
        exp(h, "RemoveOnlyImputator.get_latest_statistics()", m(
            h, "get_latest_statistics()", imp, "get_latest_statistics"),
            {"n_removed_cols": 0, "n_removed_rows": len(gaps),
             "n_filled_fields": 0, "n_rows": len(keep), "n_cols": 3})


FILLERS = '''
def before(name, right, mu):
    return [name, "before", right, mu]


def between(name, left, right, mu):
    return [name, "between", left, right, mu]


def after(name, left, mu):
    return [name, "after", left, mu]
'''


def stats(h, label, o, want):
    exp(h, f"{label}: statistics", m(
        h, "get_latest_statistics()", o, "get_latest_statistics"), want)


@entry("imputator filling gaps", "prov", "rows", forms=("default", "own"))
def _(h, form):
    grids(h)
    own = form == "own"
    mod = h.client("fillers", FILLERS)
    kw = {}
    if own:
        kw = {"fill_" + n: h.get(f"{mod}.{n}")
              for n in ("before", "between", "after")}
        kw["max_time_diff"] = h.val(datetime.timedelta(seconds=60))
    lim = 60 if own else 120
    ever = h.new("FillLocalImputator()", FILL, **kw)

    def impute(label, cols, want, filled, rows=0, ncols=0):
        if len(label) % 2:  # one object for several series
            imp = h.new("FillLocalImputator()", FILL, **kw)
        else:
            imp = ever
        r = m(h, "FillLocalImputator.impute()", imp, "impute", data(h, cols))
        n = len(want["datetime"])
        state(h, f"FillLocalImputator.impute({label})", r, want, n)
        stats(h, f"FillLocalImputator.impute({label})", imp, {
            "n_removed_cols": ncols, "n_removed_rows": rows,
            "n_filled_fields": filled, "n_rows": n, "n_cols": len(want)})

    # nothing is missing
    full = {"datetime": at(0, 10, 20, 30), "A": col("a", 4),
            "B": col("b", 4)}
    impute("complete", full, full, 0)
    # columns without any value disappear
    impute("empty column", dict(full, C=[None] * 4), full, 0, ncols=1)
    # before, between, after
    s = lim // 4
    t = at(0, s, 3 * s, 4 * s)
    impute("before", {"datetime": t, "A": [None] + col("a", 4)[1:],
                      "B": col("b", 4)},
           {"datetime": t, "A": [["A", "before", "@a1", ANY] if own
                                 else "@a1"] + col("a", 4)[1:],
            "B": col("b", 4)}, 1)
    impute("between", {"datetime": t, "A": col("a", 4),
                       "B": ["@b0", None, "@b2", "@b3"]},
           {"datetime": t, "A": col("a", 4), "B": [
               "@b0", ["B", "between", "@b0", "@b2", 1 / 3] if own
               else "@b0", "@b2", "@b3"]}, 1)
    impute("between, two", {"datetime": at(0, s, 2 * s, 3 * s),
                            "A": ["@a0", None, None, "@a3"],
                            "B": col("b", 4)},
           {"datetime": at(0, s, 2 * s, 3 * s), "A": [
               "@a0", *([["A", "between", "@a0", "@a3", x / 3]
                         for x in (1, 2)] if own else ["@a0"] * 2),
               "@a3"], "B": col("b", 4)}, 2)
    impute("after", {"datetime": t, "A": ["@a0", "@a1", "@a2", None],
                     "B": ["@b0", "@b1", None, None]},
           {"datetime": t, "A": ["@a0", "@a1", "@a2",
                                 ["A", "after", "@a2", s / lim] if own
                                 else "@a2"],
            "B": ["@b0", "@b1", *(
                [["B", "after", "@b1", x * s / lim] for x in (2, 3)] if own
                else ["@b1"] * 2)]}, 3)
    # values too far away are not used, their rows disappear
    t = at(0, 2 * lim, 4 * lim, 4 * lim + 1)
    impute("far", {"datetime": t, "A": ["@a0", None, "@a2", "@a3"],
                   "B": col("b", 4)},
           {"datetime": [t[0], t[2], t[3]], "A": ["@a0", "@a2", "@a3"],
            "B": ["@b0", "@b2", "@b3"]}, 0, rows=1)
    # both neighbours are close enough, but too far from each other
    t = at(0, lim * 3 // 4, lim * 3 // 2)
    impute("apart", {"datetime": t, "A": ["@a0", None, "@a2"],
                     "B": col("b", 3)},
           {"datetime": t, "A": ["@a0", ["A", "after", "@a0", .75] if own
                                 else "@a0", "@a2"], "B": col("b", 3)}, 1)
    # zero is a value
    t = at(0, s, 2 * s, 3 * s)
    impute("zero", {"datetime": t, "A": ["@a0", 0.0, "@a2", "@a3"],
                    "B": ["@b0", "@b1", None, 0.0]},
           {"datetime": t, "A": ["@a0", 0.0, "@a2", "@a3"],
            "B": ["@b0", "@b1", ["B", "between", "@b1", 0.0, .5] if own
                  else "@b1", 0.0]}, 1)
    # missing times
    impute("time", {"datetime": at(0, None, None, 30), "A": col("a", 4)},
           {"datetime": at(0, 10, 20, 30), "A": col("a", 4)}, 0)
    impute("time at the border", {"datetime": at(None, 10, 20, None),
                                  "A": col("a", 4)},
           {"datetime": at(10, 20), "A": ["@a1", "@a2"]}, 0, rows=2)
    impute("time between far", {"datetime": at(0, None, 3 * lim),
                                "A": col("a", 3)},
           {"datetime": at(0, 3 * lim), "A": ["@a0", "@a2"]}, 0, rows=1)
    impute("time after a gap", {
        "datetime": at(0, 3 * lim, None, 3 * lim + 20), "A": col("a", 4)},
        {"datetime": at(0, 3 * lim, 3 * lim + 10, 3 * lim + 20),
         "A": col("a", 4)}, 0)


SMOOTH = PR + "AffineSmoother"


def smoothed(xs, ys, span):
    """the documented procedure for a series without equal neighbours"""
    n = len(xs)
    cuts = [xs[0]] + [(xs[i] + xs[i + 1]) / 2 for i in range(n - 2)] + [
        xs[-1]]
    vals = [{ys[i]: 1.0} for i in range(n - 1)]
    ends = vals + [{ys[-1]: 1.0}]
    knots = []
    for i in range(n - 1):
        lo, hi = cuts[i], cuts[i + 1]
        left = mix(ends[max(i - 1, 0)], vals[i], .5)
        right = mix(vals[i], ends[i + 1], .5)
        if hi - lo < 2 * span:
            mid = (lo + hi) / 2
            knots += [(lo, mid, left, vals[i]), (mid, hi, vals[i], right)]
        else:
            knots += [(lo, lo + span, left, vals[i]),
                      (lo + span, hi - span, vals[i], vals[i]),
                      (hi - span, hi, vals[i], right)]
    out = []
    for x in xs:
        lo, hi, a, b = next(k for k in knots if x <= k[1])
        out.append(Lin(mix(a, b, (x - lo) / (hi - lo))))
    return out


def mix(a, b, mu):
    d = {k: (1 - mu) * c for k, c in a.items()}
    for k, c in b.items():
        d[k] = d.get(k, 0) + mu * c
    return d


@entry("smoother", "prov", "rows")
def _(h):
    grids(h)
    h.I.generic = True
    for secs, span in (((0, 10, 20, 30), 30), ((0, 100, 260, 300, 301), 30),
                       ((0, 100, 260, 300, 301), 10), ((0, 4), 30),
                       ((0, 1, 2), 1)):
        n = len(secs)
        cols = {"A": col("a", n), "datetime": at(*secs), "B": col("b", n),
                "I": [f"@i{k}" for k in range(n)], "S": ["x"] * n}
        s = h.new("AffineSmoother()", SMOOTH,
                  h.val(datetime.timedelta(seconds=span)))
        d = data(h, cols, {"i": "int"})
        r = m(h, "AffineSmoother.smooth()", s, "smooth", d)
        want = dict(cols)
        for k in "AB":
            want[k] = smoothed(secs, cols[k], span)
        state(h, "AffineSmoother.smooth()", r, want, n)
    # constant data stays
    d = data(h, {"datetime": at(0, 10, 40, 50), "A": ["@a0"] * 4,
                 "B": col("b", 4)})
    r = m(h, "AffineSmoother.smooth()", h.new("AffineSmoother()", SMOOTH),
          "smooth", d)
    exp(h, "AffineSmoother.smooth(constant)", get(h, r, "A"),
        [Lin({"@a0": 1.0})] * 4)
    h.call("AffineSmoother.smooth(unordered)", h.attr(
        h.new("AffineSmoother()", SMOOTH), "smooth"), data(
            h, {"datetime": at(10, 20, 0), "A": col("a")}),
        tags={"rejects:ValueError"})
    d = data(h, {"A": col("a"), "datetime": at(5, 3, 4)})
    r = m(h, "LazySmoother.smooth()", h.new("LazySmoother()",
                                            PR + "LazySmoother"),
          "smooth", d)
    state(h, "LazySmoother.smooth()", r,
          {"A": col("a"), "datetime": at(5, 3, 4)}, 3)


TIMES, LATS, LONS = at(0, 3600, 7200), (50.0, 52.0, 56.0), (-4.0, 1.0)
OUT = (at(0)[0], 10.0, 1.0)  # not covered by the model


def weather(h, attrs="wv"):
    d = [[[[f"@{a}{i}{j}{k}" for a in attrs] for k in range(2)]
          for j in range(3)] for i in range(3)]
    return h.new("GriddedWeatherModel()", GRID, val(h, d), lst(h, *TIMES),
                 lst(h, *LATS), lst(h, *LONS),
                 lst(h, *(("TWS", "TWA", "xy")["wvx".index(a)]
                          for a in attrs)))


@entry("weather added to rows", "prov", "rows",
       forms=("delete", "ignore", "none", "grid"))
def _(h, form):
    grids(h)
    mode = "ignore" if form == "ignore" else "delete"
    places = [(2, 0, 1), OUT, (0, 2, 0), (1, 1, 1), OUT, (2, 0, 1)]
    if form == "none":
        places = [OUT] * 3
    elif form == "grid":
        places = [(1, 0, 0), (0, 1, 0), (0, 0, 1)]
    elif form == "ignore":
        places = [OUT, (2, 0, 1), (0, 2, 0), OUT, (1, 1, 1)]
    n = len(places)
    pts = [p if p is OUT else (TIMES[p[0]], LATS[p[1]], LONS[p[2]])
           for p in places]
    for attrs, order in (("wv", ("A", "datetime", "lat", "lon", "B")),
                         ("vxw", ("lon", "A", "lat", "datetime", "B"))):
        cols = {"A": col("a", n), "B": col("b", n),
                "datetime": [p[0] for p in pts], "lat": [p[1] for p in pts],
                "lon": [p[2] for p in pts]}
        cols = {k: cols[k] for k in order}
        for dup in (False, True):
            if dup:
                cols["TWS"] = col("m", n)
            ex = h.new("WeatherExpander()", PIPE + "expander.WeatherExpander",
                       weather(h, attrs), *((const("ignore"),)
                                            if mode == "ignore" else ()))
            r = m(h, "WeatherExpander.expand()", ex, "expand",
                  data(h, cols))
            keep = [i for i, p in enumerate(places)
                    if mode == "ignore" or p is not OUT]
            want = {k: [c[i] for i in keep] for k, c in cols.items()}
            if form != "none":
                for a in attrs:
                    k = {"w": "TWS", "v": "TWA", "x": "xy"}[a]
                    k = k + "(duplicate)" if k in cols else k
                    want[k] = [None if places[i] is OUT else
                               "@%s%d%d%d" % ((a,) + places[i])
                               for i in keep]
            state(h, f"WeatherExpander({mode}).expand()", r, want, len(keep))
            stats(h, "WeatherExpander", ex,
                  {"n_rows": len(keep), "n_cols": len(want)})
    d = data(h, {"A": col("a"), "B": col("b")})
    ex = h.new("LazyExpander()", PIPE + "expander.LazyExpander")
    state(h, "LazyExpander.expand()", m(h, "LazyExpander.expand()", ex,
                                        "expand", d),
          {"A": col("a"), "B": col("b")}, 3)
    stats(h, "LazyExpander", ex, {"n_rows": 3, "n_cols": 2})


@entry("array handler", "prov", "rows", forms=("list", "array"))
def _(h, form):
    grids(h)
    hd = h.new("ArrayHandler()", PR + "ArrayHandler")
    for n, keys in ((3, ("TWS", "boat speed", "TWA", "Foo")), (1, ("A",)),
                    (4, ("lat", "lon", "x", "Wind_Angle")),
                    (4, ("A", "B", "C", "D"))):
        rows = [[f"@{'abcd'[j]}{i}" for j in range(len(keys))]
                for i in range(n)]
        a = arr(h, rows) if form == "array" else val(h, rows)
        r = m(h, "ArrayHandler.handle()", hd, "handle", h.seq(
            [a, lst(h, *keys)], typ="tuple"))
        std = {"boat speed": "BSP", "Wind_Angle": "TWA"}
        state(h, "ArrayHandler.handle()", r, {
            std.get(k, k): [x[j] for x in rows]
            for j, k in enumerate(keys)}, n)
        stats(h, "ArrayHandler", hd, {"n_rows": n, "n_cols": len(keys)})
        h.call("ArrayHandler.handle(number of keys)", h.attr(hd, "handle"),
               h.seq([arr(h, rows) if form == "array" else val(h, rows),
                      lst(h, *keys, "extra")], typ="tuple"),
               tags={"rejects:ValueError"})
