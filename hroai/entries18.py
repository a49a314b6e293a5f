"""Abstract clients: cruises reach their destination.

Positions, winds and courses are marks with a range, diagrams are small; the
legs of a cruise are compared with the distance and the course on the earth
by random interpretation."""
import math

from .domain import const
from .entries import entry
from .entries6 import call, exp, lst, m, val
from .entries7 import SAILS, TABLE, grids, table
from .entries14 import ranged
from .rules_prov import Fn, Near

LEGS = '''
import numpy as np


def turn(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


class Hull:
    def __init__(self, points):
        ps = [(x, y) for x, y in points]
        n = range(len(ps))
        ends = [i for i in n if any(
            j != i and all(k in (i, j) or turn(ps[i], ps[j], ps[k]) > 0
                           for k in n)
            for j in n)]
        # counterclockwise, beginning anywhere
        self.vertices = ends[2:] + ends[:2]
        self.points = points


class Model:
    """adds to the boat speed what the caller says"""

    def add_influence(self, pd, influence_data):
        self.seen = influence_data
        self.wind = [
            pd(ws, wa) for ws, wa in zip(
                influence_data["TWS"], influence_data["TWA"])]
        return [s * k for s, k in zip(self.wind, influence_data["gain"])]


def made(edge, angles, speeds):
    v = [d.proportion * np.interp(d.angle, angles, speeds) for d in edge]
    a = [np.deg2rad(d.angle) for d in edge]
    return [sum([x * np.cos(b) for x, b in zip(v, a)]),
            sum([x * np.sin(b) for x, b in zip(v, a)])]


def legs(edge):
    return [(d.angle, d.proportion, d.sail) for d in edge]
'''
CR = "hrosailing.cruising."
ANGLES = (40, 60, 90, 120, 180, 240, 270, 300, 320)
# 90, 180 and 270 are no corners of the hull
SPEEDS = (5.2, 6.0, 5.0, 7.0, 3.0, 7.5, 5.0, 6.5, 5.4)
# boat speeds that reach the hull only at some angles
OTHER = (2.0, 6.0, 6.8, 4.0, 5.0, 4.0, 6.6, 5.0, 3.0)


def start(h):
    grids(h)
    mod = h.client("legs", LEGS) + "."
    h.I.stubs["scipy.spatial.ConvexHull"] = h.get(mod + "Hull")
    return mod


def diagram(h, speeds=SPEEDS, wa=ANGLES, ws=(6, 8, 10)):
    # boat speeds do not depend on the wind speed
    return h.new("PolarDiagramTable()", TABLE, h.val(lst(h, *ws)),
                 h.val(lst(h, *wa)),
                 val(h, [[float(s)] * len(ws) for s in speeds]))


def solve(a1, s1, a2, s2, d):
    """times on both directions for one unit of distance"""
    r = math.radians
    x1, y1 = s1 * math.cos(r(a1)), s1 * math.sin(r(a1))
    x2, y2 = s2 * math.cos(r(a2)), s2 * math.sin(r(a2))
    x, y = math.cos(r(d)), math.sin(r(d))
    det = x1 * y2 - x2 * y1
    return (x * y2 - x2 * y) / det, (x1 * y - x * y1) / det


def corners(speeds, angles):
    """pairs of neighbouring corners of the hull"""
    r = math.radians
    ps = [(s * math.cos(r(a)), s * math.sin(r(a)))
          for s, a in zip(speeds, angles)]
    n = range(len(ps))

    def turn(o, a, b):
        return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])
    return [(i, j) for i in n for j in n if i != j and all(
        k in (i, j) or turn(ps[i], ps[j], ps[k]) > 0 for k in n)]


def courses(speeds, angles=ANGLES):
    """(range of courses, corner, corner or None) around the circle"""
    out = []
    for i, j in corners(speeds, angles):
        lo, hi = angles[i], angles[j]
        if hi < lo:
            out.append(((hi / 20, hi * 0.95), j, i))
            out.append(((lo + (360 - lo) * 0.05, 359.0), j, i))
        else:
            out.append(((lo + (hi - lo) * 0.05, hi - (hi - lo) * 0.05), i,
                        j if j - i > 1 else None))
    return out


def shares(speeds, i, j, mark, angles=ANGLES):
    def f(d):
        t1, t2 = solve(angles[i], speeds[i], angles[j], speeds[j], d)
        return t1 / (t1 + t2)
    return (Fn(f, mark, text=f"the share of {angles[i]} degrees"),
            Fn(lambda d: 1 - f(d), mark,
               text=f"the share of {angles[j]} degrees"))


@entry("fastest directions", "prov", "courses", "units",
       forms=("table", "other", "influence", "sails", "split"))
def _(h, form):
    mod = start(h)
    kw = {}
    sails = [None] * len(ANGLES)
    speeds = OTHER if form in ("other", "split") else SPEEDS
    d = diagram(h, speeds)
    if form == "sails":
        # every sail has its own angles
        d = h.new("PolarDiagramMultiSails()", SAILS, h.seq([
            diagram(h, SPEEDS[i::2], ANGLES[i::2]) for i in (0, 1)]),
            val(h, ["jib", "spi"]))
        sails = [("jib", "spi")[i % 2] for i in range(len(ANGLES))]
    if form == "split":
        # one sail for small angles
        d = h.new("PolarDiagramMultiSails()", SAILS, h.seq([
            diagram(h, OTHER[x], ANGLES[x])
            for x in (slice(0, 2), slice(2, None))]), val(h, ["jib", "spi"]))
        sails = ["jib"] * 2 + ["spi"] * 7
    if form == "influence":
        gain = [1.1, 0.9, 1.0, 1.2, 1.0, 1.1, 0.9, 1.0, 0.8]
        speeds = [a * b for a, b in zip(SPEEDS, gain)]
        kw = {"im": h.new("model", mod + "Model"), "influence_data": val(h, {
            "TWS": [8] * len(ANGLES), "TWA": list(ANGLES), "gain": gain})}
    for k, (rng, i, j) in enumerate(courses(speeds)):
        d0 = f"@{chr(97 + k)}0"
        r = call(h, f"convex_direction({form})", CR + "convex_direction", d,
                 const(8), ranged(h, d0, {d0[1]: rng}), **kw)
        r = h.quiet(h.get(mod + "legs"), r)
        if j is None:
            # straight, unless the sail has to be changed
            j = i + 1
        if sails[i] == sails[j] and j - i <= (2 if form == "sails" else 1):
            exp(h, f"convex_direction({form}, straight)", r,
                [[d0, 1, sails[i]]])
            continue
        p1, p2 = shares(speeds, i, j, d0)
        a1, a2 = ANGLES[i], ANGLES[j]
        exp(h, f"convex_direction({form}, {a1} to {a2})", r,
            [[a1, p1, sails[i]], [a2, p2, sails[j]]])


@entry("fastest directions at corners", "prov", "courses",
       forms=("table", "other"))
def _(h, form):
    """a direction the diagram has and that is a corner of the hull"""
    mod = start(h)
    speeds = OTHER if form == "other" else SPEEDS
    d = diagram(h, speeds)
    for i in sorted({i for ij in corners(speeds, ANGLES) for i in ij}):
        for a in (ANGLES[i], float(ANGLES[i])):
            r = call(h, f"convex_direction({form}, {a})",
                     CR + "convex_direction", d, const(8), const(a))
            r = h.quiet(h.get(mod + "made"), r,
                        val(h, [float(x) for x in ANGLES]),
                        val(h, list(speeds)))
            r_ = math.radians(a)
            exp(h, f"convex_direction({form}, {a})", r, [
                Near(speeds[i] * math.cos(r_), 1e-6),
                Near(speeds[i] * math.sin(r_), 1e-6)])


# ------------------------------------------------------------------- cruise
def course(lon1, lat1, lon2, lat2):
    r = math.radians
    d = r(lon2 - lon1)
    return math.degrees(math.atan2(
        math.sin(d) * math.cos(r(lat2)),
        math.cos(r(lat1)) * math.sin(r(lat2)) -
        math.sin(r(lat1)) * math.cos(r(lat2)) * math.cos(d))) % 360


def distance(lon1, lat1, lon2, lat2):
    """nautical miles on the ellipsoid (Vincenty)"""
    r = math.radians
    a, f = 6378.137 / 1.852, 1 / 298.257223563
    b = a * (1 - f)
    u1 = math.atan((1 - f) * math.tan(r(lat1)))
    u2 = math.atan((1 - f) * math.tan(r(lat2)))
    d = x = r(lon2 - lon1)
    s1, c1, s2, c2 = math.sin(u1), math.cos(u1), math.sin(u2), math.cos(u2)
    for _ in range(60):
        sin = math.hypot(c2 * math.sin(x),
                         c1 * s2 - s1 * c2 * math.cos(x))
        cos = s1 * s2 + c1 * c2 * math.cos(x)
        o = math.atan2(sin, cos)
        sa = c1 * c2 * math.sin(x) / sin
        ca = 1 - sa * sa
        cm = cos - 2 * s1 * s2 / ca if ca > 1e-12 else 0.0
        c = f / 16 * ca * (4 + f * (4 - 3 * ca))
        x = d + (1 - c) * f * sa * (
            o + c * sin * (cm + c * cos * (2 * cm * cm - 1)))
    u = ca * (a * a - b * b) / (b * b)
    A = 1 + u / 16384 * (4096 + u * (u * (320 - 175 * u) - 768))
    B = u / 1024 * (256 + u * (u * (74 - 47 * u) - 128))
    do = B * sin * (cm + B / 4 * (
        cos * (2 * cm * cm - 1) - B / 6 * cm * (4 * sin * sin - 3) *
        (4 * cm * cm - 3)))
    return b * A * (o - do)


# start, end (longitude and latitude) with small ranges
TRIPS = {"northeast": ((10.0, 50.0), (11.0, 51.0)),
         "west": ((-30.0, 40.0), (-34.0, 39.0)),
         "south": ((100.0, -20.0), (101.0, -25.0)),
         "over the equator": ((5.0, 1.0), (8.0, -2.0)),
         "over the date line": ((179.0, 30.0), (182.0, 31.0))}


def wind(fmt, ws, to):
    """the same wind in all formats"""
    if fmt == "ws_wan":
        return ws, to
    if fmt == "uv_grd":
        return (ws * math.sin(math.radians(to)),
                ws * math.cos(math.radians(to)))
    return ws, (20 - to - 180) % 360, 20.0


PLAN = '''
import hrosailing.cruising.basics as basics
from hrosailing.cruising import Direction


def use(plan):
    basics.convex_direction = plan


def straight(pd, ws, direction, *, im=None, influence_data=None):
    return [Direction(direction, 1)]


def tacks(low, high, share):
    def plan(pd, ws, direction, *, im=None, influence_data=None):
        return [Direction(low, share), Direction(high, 1 - share)]
    return plan
'''
FORMATS = ("ws_wan", "ws_wa_hdt", "uv_grd")


@entry("cruises", "prov", "courses", "units", forms=tuple(TRIPS))
def _(h, form):
    mod = start(h)
    mod = h.client("plan", PLAN) + "."
    cruise = CR + "cruise"
    (x1, y1), (x2, y2) = TRIPS[form]
    w = 0.4
    ranges = {c: (x - w, x + w) for c, x in zip("fghi", (x1, y1, x2, y2))}
    ranges.update(p=(0.05, 0.95), s=(6.0, 10.0), t=(20.0, 340.0))
    a, b = ("@f0", "@g0"), ("@h0", "@i0")
    order = a + b

    def go(fmt, d, wind, label):
        r = call(h, f"cruise({form}, {label})", cruise, d,
                 ranged(h, a, ranges), ranged(h, b, ranges), wind,
                 wind_fmt=val(h, fmt))
        return r
    # all courses are as fast as another
    d = diagram(h, (6.0,) * len(ANGLES))
    use = h.get(mod + "use")
    h.quiet(use, h.get(mod + "straight"))
    for fmt in FORMATS:
        for to in (15.0, 100.0, 200.0, 350.0):
            r = go(fmt, d, val(h, wind(fmt, 8.0, to)), fmt)
            exp(h, f"cruise({form}, {fmt})", r, [[
                Fn(lambda *p, to=to: abs((course(*p) - to) % 360 - 180),
                   *order, text="the course to the wind"),
                Fn(lambda *p: distance(*p) / 6.0, *order, rtol=1e-4,
                   text="the time for the distance")]])
    d = diagram(h)
    for i, j in ((1, 3), (0, 8), (3, 5)):
        h.quiet(use, h.quiet(
            h.get(mod + "tacks"), const(float(ANGLES[i])),
            const(float(ANGLES[j])), ranged(h, "@p0", ranges)))
        r = go("ws_wan", d, val(h, (8.0, 30.0)), "two directions")

        def time(p, *x, first=True, i=i, j=j):
            r = math.radians
            q = 1 - p
            v = math.hypot(
                p * SPEEDS[i] * math.cos(r(ANGLES[i])) +
                q * SPEEDS[j] * math.cos(r(ANGLES[j])),
                p * SPEEDS[i] * math.sin(r(ANGLES[i])) +
                q * SPEEDS[j] * math.sin(r(ANGLES[j])))
            return (p if first else q) * distance(*x) / v
        exp(h, f"cruise({form}, two directions)", r, [
            [ANGLES[k], Fn(lambda *x, first=first, f=time: f(*x, first=first),
                           "@p0", *order, rtol=1e-4,
                           text=f"the time on {ANGLES[k]} degrees")]
            for k, first in ((i, True), (j, False))])


@entry("cruises with influence", "prov", "courses")
def _(h):
    """the influence model gets the winds of the diagram and the data"""
    mod = start(h)
    d = diagram(h)
    im = h.new("model", mod + "Model")
    r = call(h, "cruise(influence)", CR + "cruise", d,
             val(h, (10.0, 50.0)), val(h, (10.0, 51.0)), val(h, (8.0, 92.0)),
             im=im, influence_data=val(h, {"gain": 1.25}))
    exp(h, "cruise(influence): wind", h.attr(im, "wind"), list(SPEEDS))
    t = [x * distance(10.0, 50.0, 10.0, 51.0) / 1.25
         for x in solve(60, 6.0, 120, 7.0, 88.0)]
    exp(h, "cruise(influence)", r, [[60, Near(t[0], t[0] * 1e-4)],
                                    [120, Near(t[1], t[1] * 1e-4)]])
