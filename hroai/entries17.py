"""Abstract clients: what plots hand to the drawing library."""
import math

from .domain import const
from .entries import PD, PR, entry
from .entries6 import el, exp, lst, m, val
from .entries7 import (
    CF, FULL, PTS, TABLE, WA, WS, arr, cloud, fleet, grids, rows, table,
)
from .rules_prov import ANY, Fn, Lin, Un

AXES = '''
from hrosailing.plotting.projections import (
    Axes3D, HROColorGradient, HROFlat, HROPolar,
)


class Axis:
    def set_ticklabels(self, *args, **kwargs):
        pass


class Recorder:
    def __init__(self):
        self.lines = []
        self.points = []
        self.colors = []
        self.surfaces = []
        self.cycles = []
        self.legends = []
        self.theta = {}
        self.xaxis = Axis()
        self.yaxis = Axis()
        self.zaxis = Axis()

    def plot(self, x, y, *args, **kwargs):
        self.lines.append([x, y])

    def scatter(self, *args, c=None, **kwargs):
        self.points.append(list(args))
        self.colors.append(c)

    def plot_trisurf(self, x, y, z, **kwargs):
        self.surfaces.append([x, y, z])

    def set_prop_cycle(self, *args, **kwargs):
        if kwargs:
            self.cycles.append(kwargs["color"])
        else:
            self.cycles.append(args[1])

    def set_theta_zero_location(self, loc, offset=0.0):
        self.theta["zero"] = loc

    def set_theta_direction(self, direction):
        self.theta["clockwise"] = direction in (-1, "clockwise")

    def set_xlabel(self, *args, **kwargs):
        pass

    set_ylabel = set_zlabel = set_xlabel

    def legend(self, *args, handles=(), **kwargs):
        self.legends.append([[x.winds, x.color] for x in handles])


class Polar(HROPolar, Recorder):
    pass


class Flat(HROFlat, Recorder):
    pass


class Gradient(HROColorGradient, Recorder):
    pass


class Space(Axes3D, Recorder):
    pass


def polar():
    ax = Polar.__new__(Polar)
    Recorder.__init__(ax)
    return ax


def flat():
    ax = Flat.__new__(Flat)
    Recorder.__init__(ax)
    return ax


def gradient():
    ax = Gradient.__new__(Gradient)
    Recorder.__init__(ax)
    return ax


def space():
    ax = Space.__new__(Space)
    Recorder.__init__(ax)
    return ax


class Stage:
    def __init__(self):
        self.ax = None

    def subplot(self, *args, projection=None, **kwargs):
        if projection == HROPolar.name:
            self.ax = polar()
        elif projection == HROFlat.name:
            self.ax = flat()
        elif projection == HROColorGradient.name:
            self.ax = gradient()
        elif projection == Axes3D.name:
            self.ax = space()
        return self.ax


COLORS = {"red": (1.0, 0.0, 0.0), "green": (0.0, 0.5, 0.0),
          "blue": (0.0, 0.0, 1.0), "k": (0.0, 0.0, 0.0)}


def is_color_like(c):
    if isinstance(c, str):
        return c in COLORS
    return isinstance(c, tuple) and len(c) in (3, 4)


def to_rgb(c):
    if isinstance(c, str):
        return COLORS[c]
    return c


class Line:
    def __init__(self, xs, ys, color=None, label="", **kwargs):
        self.color = color
        self.winds = [ws for ws in (6, 8, 10) if f"TWS {ws}" in label]


class Norm:
    def __init__(self, vmin=None, vmax=None):
        self.limits = [vmin, vmax]


class Mappable:
    def __init__(self, norm=None, cmap=None):
        self.norm = norm


class Bar:
    def __init__(self, mappable, ax=None, **kwargs):
        ax.legends.append(mappable.norm.limits)

    def set_label(self, label, **kwargs):
        pass


def turn(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


class Hull:
    def __init__(self, points):
        ps = [(x, y) for x, y in points]
        n = range(len(ps))
        ends = [i for i in n if any(
            j != i and all(k in (i, j) or turn(ps[i], ps[j], ps[k]) > 0
                           for k in n)
            for j in n)]
        # counterclockwise, beginning anywhere
        self.vertices = ends[2:] + ends[:2]
'''
PROJ = "hrosailing.plotting."
AX = (("polar", math.radians), ("flat", float))


def axes(h):
    mod = h.client("axes", AXES)
    mod = mod + "."
    for ext, name in (
            ("matplotlib.colors.is_color_like", "is_color_like"),
            ("matplotlib.colors.to_rgb", "to_rgb"),
            ("matplotlib.lines.Line2D", "Line"),
            ("matplotlib.colors.Normalize", "Norm"),
            ("matplotlib.cm.ScalarMappable", "Mappable"),
            ("matplotlib.pyplot.colorbar", "Bar"),
            ("scipy.spatial.ConvexHull", "Hull")):
        h.I.stubs[ext] = h.get(mod + name)
    return lambda kind: h.quiet(h.get(mod + kind))


def lines(ws, f, wa=WA, rs=FULL, order=WS):
    return [[[f(a) for a in wa], [r[order.index(w)] for r in rs]] for w in ws]


@entry("plots", "prov", "drawn", forms=("polar", "flat"))
def _(h, kind):
    grids(h)
    new = axes(h)
    f = dict(AX)[kind]
    t = table(h)
    for ws in ((8,), (10, 6), WS):
        for how, attr in (("plot", "lines"), ("scatter", "points")):
            ax = new(kind)
            lab = f"{kind}.{how}(table)"
            m(h, lab, ax, how, t, ws=lst(h, *ws))
            exp(h, lab, h.attr(ax, attr), lines(ws, f))
            if kind == "polar":
                exp(h, lab + ": north", h.attr(ax, "theta"),
                    {"zero": "N", "clockwise": True})
    ax = new(kind)
    m(h, f"{kind}.plot(table, all)", ax, "plot", t)
    exp(h, f"{kind}.plot(table, all)", h.attr(ax, "lines"), lines(WS, f))
    ax = new(kind)
    m(h, f"{kind}.plot(table, steps)", ax, "plot", t, ws=lst(h, 6, 10),
      n_steps=const(1))
    exp(h, f"{kind}.plot(table, steps)", h.attr(ax, "lines"),
        lines(WS, f))
    # points of a cloud that are not sorted
    pts = [(8, 200, "@b2"), (8, 40, "@b0"), (6, 10, "@b1"), (8, 90, "@b3")]
    c = cloud(h, pts=pts)
    for how, attr in (("plot", "lines"), ("scatter", "points")):
        ax = new(kind)
        lab = f"{kind}.{how}(cloud)"
        m(h, lab, ax, how, c, ws=lst(h, 8), range_=const(0.1))
        ax = new(kind)
        m(h, lab, ax, how, c, ws=lst(h, 8))
        exp(h, lab, h.attr(ax, attr),
            [[[f(a) for a in (40, 90, 200)], ["@b0", "@b3", "@b2"]]])


@entry("plots of sails", "prov", "drawn", forms=("polar", "flat"))
def _(h, kind):
    grids(h)
    new = axes(h)
    f = dict(AX)[kind]
    ms = fleet(h)[2]
    for how, attr in (("plot", "lines"), ("scatter", "points")):
        ax = new(kind)
        lab = f"{kind}.{how}(sails)"
        m(h, lab, ax, how, ms, ws=lst(h, 8, 10))
        want = []
        for w in (8, 10):
            j = WS.index(w)
            # one line for every sail
            want.append([
                [f(x) for x in (30, 100)] + [ANY] + [f(x) for x in WA],
                [r[j] for r in CF] + [ANY] + [r[j] for r in FULL]])
        exp(h, lab, h.attr(ax, attr), want)


def hulls():
    """slices in polar coordinates and their convex hulls"""
    yield "inside", (40, 60, 90, 150), (5., 4.5, 6., 5.), (
        (40, 90, 150), (5., 6., 5.))
    yield "full", (0, 90, 180, 270, 360), (5., 6., 5., 1., 5.), None
    # the hull meets the line through 0 degrees between its ends
    for name, a, b in (("symmetric", (30, 90, 180, 270, 330),
                        (5., 6., 5., 6., 5.)),
                       ("uneven", (30, 90, 180, 270, 350),
                        (5., 5., 5., 5., 9.)),
                       ("hollow", (20, 80, 120, 200, 300),
                        (4., 7., 1., 5., 6.))):
        ps = [(y * math.sin(math.radians(x)), y * math.cos(math.radians(x)))
              for x, y in zip(a, b)]
        (x0, y0), (x1, y1) = ps[0], ps[-1]
        z = y0 + (0 - x0) * (y1 - y0) / (x1 - x0)
        keep = [k for k in range(len(a)) if a[k] != 120]
        yield name, a, b, ((0,) + tuple(a[k] for k in keep) + (360,),
                           (z,) + tuple(b[k] for k in keep) + (z,))
    yield "from 0", (0, 90, 180, 270), (5., 6., 5., 6.), (
        (0, 90, 180, 270, 360), (5., 6., 5., 6., 5.))
    yield "to 360", (70, 180, 290, 360), (5., 4., 6., 3.), (
        (0, 70, 180, 290, 360), (3., 5., 4., 6., 3.))


@entry("plots of hulls", "prov", "drawn", forms=("polar", "flat"))
def _(h, kind):
    grids(h)
    new = axes(h)
    f = dict(AX)[kind]
    for name, wa, bsp, want in hulls():
        if want is None:
            continue
        t = h.new("PolarDiagramTable()", TABLE, lst(h, 6, 8), h.val(
            lst(h, *wa)), val(h, [[x, x] for x in bsp]))
        for how, attr in (("plot", "lines"), ("scatter", "points")):
            ax = new(kind)
            lab = f"{kind}.{how}(hull, {name})"
            m(h, lab, ax, how, t, ws=lst(h, 8),
              use_convex_hull=const(True))
            exp(h, lab, h.attr(ax, attr),
                [[[f(x) for x in want[0]], list(want[1])]])


def share(w, order=WS):
    c = (w - order[0]) / (order[-1] - order[0])
    return [c, .5 * (1 - c), 0]


@entry("colors of plots", "prov", "drawn", forms=("polar", "flat"))
def _(h, kind):
    grids(h)
    new = axes(h)
    t = table(h)
    for name, colors, ws, cycle, legend in (
            ("default", None, WS, [share(w) for w in WS], [6, 10]),
            ("gradient", ("red", "green"), WS,
             [[1 - share(w)[0], .5 * share(w)[0], 0] for w in WS], [6, 10]),
            ("two of two", ("red", "green"), (6, 8), ["red", "green"],
             [[[6], "red"], [[8], "green"]]),
            ("one of two", None, (8,), ["green"], [[[8], "green"]]),
            ("one", "red", (6, 10), ["red"], [[[6], "red"], [[10], "red"]]),
            ("one tuple", (0.25, 0.5, 1.0), (6, 10), [[0.25, 0.5, 1.0]],
             [[[6], [0.25, 0.5, 1.0]], [[10], [0.25, 0.5, 1.0]]]),
            ("three", ("red", "k", "green"), WS, ["red", "k", "green"],
             [[[6], "red"], [[8], "k"], [[10], "green"]]),
            ("more", ("red", "k", "green", "blue"), WS,
             ["red", "k", "green"],
             [[[6], "red"], [[8], "k"], [[10], "green"]]),
            ("pairs", ((10, "red"), (6, "k")), WS, ["k", "blue", "red"],
             [[[10], "red"], [[6], "k"]]),
            ("turned", None, (10, 6, 8), [share(w) for w in (10, 6, 8)],
             [6, 10]),
            ("pairs, turned", ((10, "red"), (6, "k")), (10, 6, 8),
             ["red", "k", "blue"], [[[10], "red"], [[6], "k"]])):
        kw = {} if colors is None else {"colors": val(h, colors)}
        for how in ("plot", "scatter"):
            ax = new(kind)
            lab = f"{kind}.{how}(colors {name})"
            m(h, lab, ax, how, t, ws=lst(h, *ws), show_legend=const(True),
              **kw)
            exp(h, lab, h.attr(ax, "cycles"), [cycle])
            exp(h, lab + ": legend", h.attr(ax, "legends"), [legend])


@entry("plots of all points", "prov", "drawn",
       forms=("gradient", "scatter", "surface"))
def _(h, kind):
    grids(h)
    new = axes(h)
    ivs = {"a": (0, 1, False, False), "b": (5, 6, False, False),
           "c": (2, 3, False, False)}
    ws, wa = (6, 8), (40, 150)
    mk = [["@c0", "@a0"], ["@b0", "@c1"]]
    t = h.new("PolarDiagramTable()", TABLE, lst(h, *ws), lst(h, *wa), h.seq(
        [h.seq([el(h, x[1:], iv=ivs[x[1]]) for x in r]) for r in mk]))
    pts = [(w, a, mk[i][j]) for i, a in enumerate(wa)
           for j, w in enumerate(ws)]
    sel = [pts[2], pts[0], pts[1]]
    for name, wind, want in (
            ("all", None, pts), ("wind", arr(h, [
                [float(p[0]), float(p[1])] for p in sel]), sel)):
        kw = {} if wind is None else {"wind": wind}
        if kind == "gradient":
            for how in ("plot", "scatter"):
                ax = new("gradient")
                lab = f"color gradient.{how}({name})"
                m(h, lab, ax, how, t, **kw)
                exp(h, lab, h.attr(ax, "points"), [
                    [[p[0] for p in want], [p[1] for p in want]]])
                lo = "@a0" if pts[1] in want else "@c0"

                def color(i):
                    return lambda b, x, y: (
                        lambda c: (c, .5 * (1 - c), 0 * c)[i])(
                        (b - x) / (y - x))
                exp(h, lab + ": colors", h.attr(ax, "colors"), [
                    [[Fn(color(i), p[2], lo, "@b0") for i in range(2)]
                     + [ANY] for p in want]])
            continue
        ax = new("space")
        how, attr = ("scatter", "points") if kind == "scatter" else (
            "plot_surface", "surfaces")
        lab = f"3d.{how}({name})"
        m(h, lab, ax, how, t, **kw)
        exp(h, lab, h.attr(ax, attr), [[
            [Lin({p[2]: math.sin(math.radians(p[1]))}) for p in want],
            [Lin({p[2]: math.cos(math.radians(p[1]))}) for p in want],
            [p[0] for p in want]]])


@entry("plot functions", "prov", "drawn")
def _(h):
    grids(h)
    new = axes(h)
    del new
    stage = h.quiet(h.get(h.client("axes", AXES) + ".Stage"))
    h.I.stubs["matplotlib.pyplot.subplot"] = h.attr(stage, "subplot")
    t = table(h)
    for kind, f in AX:
        for how, attr in (("plot", "lines"), ("scatter", "points")):
            lab = f"{how}_{kind}()"
            h.call(lab, h.get(f"{PROJ}{how}_{kind}"), t, ws=lst(h, 10, 6))
            exp(h, lab, h.attr(h.attr(stage, "ax"), attr),
                lines((10, 6), f))
    pts = [(w, a, FULL[i][j]) for i, a in enumerate(WA)
           for j, w in enumerate(WS)]
    h.call("plot_color_gradient()", h.get(PROJ + "plot_color_gradient"), t)
    exp(h, "plot_color_gradient()", h.attr(h.attr(stage, "ax"), "points"),
        [[[p[0] for p in pts], [p[1] for p in pts]]])
    for how, attr in (("plot", "surfaces"), ("scatter", "points")):
        lab = f"{how}_3d()"
        h.call(lab, h.get(f"{PROJ}{how}_3d"), t)
        exp(h, lab, h.attr(h.attr(stage, "ax"), attr), [[
            [Lin({p[2]: math.sin(math.radians(p[1]))}) for p in pts],
            [Lin({p[2]: math.cos(math.radians(p[1]))}) for p in pts],
            [p[0] for p in pts]]])
