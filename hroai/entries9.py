"""Abstract clients: weather is that of the place and time asked for."""
import datetime
import itertools

from .domain import const
from .entries import MOD, entry
from .entries6 import call, exp, lst, m, val
from .entries7 import arr, grids
from .harness import Gap
from .rules_prov import Lin, Mean

GRID = MOD + "GriddedWeatherModel"
T0 = datetime.datetime(2023, 4, 5, 22)


def day(x):
    """x hours after the start, across midnight"""
    return T0 + datetime.timedelta(hours=x)


TS = tuple(day(x) for x in (0, 6, 12))
LATS, LONS = (50.0, 52.0, 56.0), (-4.0, 1.0)


def w(i, j, k, a="a"):
    return f"@{a}{i}{j}{k}"


def cells(attrs):
    return [[[[w(i, j, k, a) for a in attrs] for k in range(len(LONS))]
             for j in range(len(LATS))] for i in range(len(TS))]


def model(h, attrs=("a", "b"), form="list"):
    d = cells(attrs)
    return h.new("GriddedWeatherModel()", GRID,
                 arr(h, d) if form == "array" else val(h, d),
                 lst(h, *TS), lst(h, *LATS), lst(h, *LONS),
                 lst(h, *(x.upper() for x in attrs)))


@entry("weather at grid points", "prov", "gridded",
       forms=("list", "array"))
def _(h, form):
    grids(h)
    g = model(h, form=form)
    for i, j, k in itertools.product(range(3), range(3), range(2)):
        r = m(h, "GriddedWeatherModel.get_weather()", g, "get_weather",
              lst(h, TS[i], LATS[j], LONS[k]))
        exp(h, "GriddedWeatherModel.get_weather(grid point)", r,
            {"A": w(i, j, k), "B": w(i, j, k, "b")})


def between(xs, x):
    """indices around x with their weights"""
    for i, y in enumerate(xs):
        if x == y:
            return {i: 1.0}
        if x < y:
            lam = (y - x) / (y - xs[i - 1])
            return {i - 1: lam, i: 1 - lam}
    raise ValueError


@entry("weather between grid points", "prov", "gridded")
def _(h):
    grids(h)
    g = model(h, ("a",))
    for x, la, lo in ((3.0, 50.0, -4.0), (6.0, 51.0, 1.0), (6.0, 53.0, 1.0),
                      (12.0, 52.0, -1.5), (4.5, 54.0, 1.0),
                      (9.0, 50.5, -3.0), (12.0, 55.0, 0.0)):
        t = day(x)
        r = m(h, "GriddedWeatherModel.get_weather()", g, "get_weather",
              lst(h, t, la, lo))
        want = {}
        for (i, a), (j, b), (k, c) in itertools.product(
                between(TS, t).items(), between(LATS, la).items(),
                between(LONS, lo).items()):
            want[w(i, j, k)] = a * b * c
        exp(h, "GriddedWeatherModel.get_weather(between)", r,
            {"A": Lin(want)})


@entry("weather of several models", "prov", "gridded")
def _(h):
    grids(h)
    one = model(h, ("a",))
    two = model(h, ("b",))
    ms = h.new("MultiWeatherModel()", MOD + "MultiWeatherModel", one, two)
    r = m(h, "MultiWeatherModel.get_weather()", ms, "get_weather",
          lst(h, TS[1], 56.0, 1.0))
    exp(h, "MultiWeatherModel.get_weather()", r,
        {"A": w(1, 2, 1), "B": w(1, 2, 1, "b")})
    far = h.new("GriddedWeatherModel()", GRID, val(h, [[[["@far"]]]]),
                lst(h, TS[1]), lst(h, 0.0), lst(h, 0.0), lst(h, "C"))
    r = m(h, "GriddedWeatherModel.get_weather(single)", far, "get_weather",
          lst(h, TS[1], 0.0, 0.0))
    exp(h, "GriddedWeatherModel.get_weather(single point)", r,
        {"C": "@far"})
    for order in ((far, one, two), (one, far, two), (one, two, far)):
        ms = h.new("MultiWeatherModel()", MOD + "MultiWeatherModel", *order)
        r = m(h, "MultiWeatherModel.get_weather(outside)", ms, "get_weather",
              lst(h, TS[1], 56.0, 1.0))
        exp(h, "MultiWeatherModel.get_weather(outside of one)", r,
            {"A": w(1, 2, 1), "B": w(1, 2, 1, "b")})


NETCDF = '''
import numpy as np


class Variable:
    def __init__(self, name, dims, values, units=""):
        self.name = name
        self.dims = dims
        self.values = values
        self.units = units
        self.dimensions = dims
        self.shape = values.shape

    def __getitem__(self, idx):
        return self.values[idx]

    def __len__(self):
        return len(self.values)

    def __str__(self):
        return (
            "<class 'netCDF4._netCDF4.Variable'>\\n"
            "float64 " + self.name + "(" + ", ".join(self.dims) + ")\\n"
            "    units: x\\nunlimited dimensions: "
        )


class File:
    def __init__(self, names, times, lats, lons, data, units):
        t, la, lo = names
        self.names = names
        self.dims = {t: times, la: lats, lo: lons}
        self.variables = {
            t: Variable(t, (t,), np.array(times), units),
            la: Variable(la, (la,), np.array(lats)),
            lo: Variable(lo, (lo,), np.array(lons)),
        }
        for name, (dims, values) in data.items():
            self.variables[name] = Variable(name, dims, np.array(values))

    def open(self, path):
        return self

    def __getitem__(self, name):
        if name in self.names[1:]:
            return self.variables[name].values
        return self.variables[name]
'''


@entry("weather of netCDF files", "prov", "gridded",
       forms=("ascending", "lats", "lons", "both"))
def _(h, form):
    form = form in ("lats", "both"), form in ("lons", "both")
    grids(h)
    mod = h.client("netcdf", NETCDF)
    aliases = {"lat": "la", "lon": "lo", "datetime": "ti"}
    for names, alias in ((("time", "latitude", "longitude"), None),
                         (("ti", "la", "lo"), aliases)):
        t, la, lo = names
        lats = LATS[::-1] if form[0] else LATS
        lons = LONS[::-1] if form[1] else LONS
        jj = [LATS.index(x) for x in lats]
        kk = [LONS.index(x) for x in lons]
        a = [[[w(i, j, k) for k in kk] for j in jj] for i in range(3)]
        b = [[[w(i, j, k, "b") for i in range(3)] for j in jj] for k in kk]
        for unit, f, first, start in (
                ("hours", 1, 96, "2023-04-01 22:00"),
                ("seconds", 3600, 96, "2023-04-01 22:00:00"),
                ("hours", 1, 95.75, "2023-04-01 22:15")):
            file = h.quiet(h.get(mod + ".File"), val(h, list(names)),
                           val(h, [f * (first + 6 * i) for i in range(3)]),
                           val(h, list(lats)), val(h, list(lons)),
                           val(h, {"A": (names, a), "B": ((lo, la, t), b)}),
                           const(f"{unit} since {start}"))
            h.I.stubs["netCDF4.Dataset"] = h.attr(file, "open")
            g = h.new("NetCDFWeatherModel()", MOD + "NetCDFWeatherModel",
                      "x.nc", **({} if alias is None else {
                          "aliases": val(h, alias)}))
            for i, j, k in ((0, 0, 0), (2, 1, 1), (1, 2, 0), (0, 2, 1)):
                r = m(h, "NetCDFWeatherModel.get_weather()", g,
                      "get_weather", lst(h, TS[i], LATS[j], LONS[k]))
                exp(h, "NetCDFWeatherModel.get_weather(grid point)", r,
                    {"A": w(i, j, k), "B": w(i, j, k, "b")})
            r = m(h, "NetCDFWeatherModel.get_weather()", g, "get_weather",
                  lst(h, TS[1], 53.0, -1.5))
            exp(h, "NetCDFWeatherModel.get_weather(between)", r, {
                "A": Lin({w(1, 1, 0): .375, w(1, 1, 1): .375,
                          w(1, 2, 0): .125, w(1, 2, 1): .125}),
                "B": Lin({w(1, 1, 0, "b"): .375, w(1, 1, 1, "b"): .375,
                          w(1, 2, 0, "b"): .125, w(1, 2, 1, "b"): .125})})


METEOSTAT = '''
import numpy as np

FILES = {}


class Place:
    def __init__(self, lat, lon, alt=0):
        self.lat = lat
        self.lon = lon


class Index:
    def __init__(self, values):
        self.values = values


class Columns:
    def __init__(self, rows):
        self.rows = rows

    def to_numpy(self):
        return np.array(self.rows)


class Frame:
    def __init__(self, times, cols):
        self.index = Index(times)
        self.cols = cols

    def __getitem__(self, keys):
        n = len(self.index.values)
        if not n:
            return Empty(len(keys))
        return Columns([[self.cols[k][i] for k in keys] for i in range(n)])


class Empty:
    def __init__(self, n):
        self.n = n

    def to_numpy(self):
        return np.zeros((0, self.n))


class Series:
    def __init__(self, place, start, end):
        self.place = place

    def fetch(self):
        return FILES[f"{self.place.lat}/{self.place.lon}"]


def store(lat, lon, times, cols):
    FILES[f"{lat}/{lon}"] = Frame(times, cols)


def to_datetime(t):
    return t
'''


@entry("weather fetched from meteostat", "prov", "gridded",
       forms=("complete", "first", "last", "middle"))
def _(h, form):
    grids(h)
    none = {"first": (0, 0), "last": (2, 1), "middle": (1, 0)}.get(form)
    mod = h.client("meteostat", METEOSTAT)
    store = h.get(mod + ".store")
    for j in range(3):
        for k in range(2):
            no = none == (j, k)
            h.quiet(store, LATS[j], LONS[k], lst(h, *(() if no else TS)),
                    val(h, {x.upper(): [] if no else [
                        w(i, j, k, x) for i in range(3)] for x in "abc"}))
    for ext, name in (("meteostat.Point", "Place"),
                      ("meteostat.Hourly", "Series"),
                      ("pandas.to_datetime", "to_datetime")):
        h.I.stubs[ext] = h.get(f"{mod}.{name}")
    for keys in ("ab", "c", "cab"):
        g = call(h, "GriddedWeatherModel.from_meteostat()",
                 h.attr(h.get(GRID), "from_meteostat"), lst(h, *LATS),
                 lst(h, *LONS), TS[0], TS[-1], lst(h, *keys.upper()))
        for i, j, k in itertools.product(range(3), range(3), range(2)):
            if (i, j, k) not in ((0, 0, 0), (1, 2, 1), (2, 1, 0), (2, 0, 1)):
                continue
            r = m(h, "GriddedWeatherModel.get_weather()", g, "get_weather",
                  lst(h, TS[i], LATS[j], LONS[k]))
            exp(h, "from_meteostat().get_weather(grid point)", r, {
                x.upper(): 0 if none == (j, k) else w(i, j, k, x)
                for x in keys})


@entry("weather outside of the grid", "prov", "gridded",
       forms=("list", "array"))
def _(h, form):
    grids(h)
    g = model(h, form=form)
    for t, la, lo in ((day(-1), 52.0, 1.0), (day(13), 52.0, 1.0),
                      (TS[0], 49.0, 1.0), (TS[0], 57.0, 1.0),
                      (TS[0], 52.0, -4.5), (TS[0], 52.0, 1.25),
                      (TS[0], 1.0, 52.0)):
        h.call("GriddedWeatherModel.get_weather(outside)",
                   h.attr(g, "get_weather"), lst(h, t, la, lo),
                   tags={"rejects:ValueError"})
