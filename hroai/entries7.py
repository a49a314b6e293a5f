"""Abstract clients: boat speeds stay with their wind.

Small diagrams with known winds whose boat speeds carry their own mark."""
from .domain import E0, const
from .entries import CORE, PD, PIPE, PR, entry
from .entries6 import call, el, exp, fold, get, lst, m, rl, val
from .entries4 import lpath
from . import poly
from .rules_prov import ANY, Cols, Un
from .harness import INF, Gap

TABLE = PD + "PolarDiagramTable"
CLOUD = PD + "PolarDiagramPointcloud"
SAILS = PD + "PolarDiagramMultiSails"
WS = (6, 8, 10)
WA = (40, 60, 90, 150)


def b(i, j):
    return f"@b{i}{j}"


def marks(rows, cols):
    return [[b(i, j) for j in cols] for i in rows]


def grids(h):
    h.I.grids = True
    poly.STATE["on"] = True


def arr(h, x):
    """numpy array of nested lists"""
    return h.quiet(h.I.ext.load_ext("numpy.array"), val(h, x))


def form(h, kind, x):
    return arr(h, x) if kind == "array" else val(
        h, tuple(x) if kind == "tuple" else x)


def nums(h, kind, xs, kw=None):
    f = float if kind == "array" else int
    return form(h, kind, [f(x) for x in xs])


FULL = marks(range(4), range(3))
ORDERS = {"sorted": ((0, 1, 2), (0, 1, 2, 3)),
          "reversed": ((2, 1, 0), (3, 2, 1, 0)),
          "mixed": ((1, 2, 0), (2, 0, 3, 1)),
          "swapped": ((0, 2, 1), (1, 0, 2, 3))}


def table(h, ws=WS, wa=WA, rows=None, label="PolarDiagramTable()"):
    n = range(len(wa))
    k = range(len(ws))
    return h.new(label, TABLE, h.val(lst(h, *ws)), h.val(lst(h, *wa)),
                 val(h, rows or marks(n, k)))


def state(h, label, t, ws=WS, wa=WA, rows=None):
    rows = rows or FULL
    exp(h, f"{label}: wind_speeds", h.attr(t, "wind_speeds"), list(ws))
    exp(h, f"{label}: wind_angles", h.attr(t, "wind_angles"), list(wa))
    exp(h, f"{label}: boat_speeds", h.attr(t, "boat_speeds"), rows)


FORMS = ("list", "tuple", "array")


@entry("table built", "prov", "winds", "turns", forms=FORMS)
def _(h, kind):
    grids(h)
    for name, (cs, rs) in ORDERS.items():
        t = h.new(f"PolarDiagramTable({name})", TABLE,
                  nums(h, kind, [WS[j] for j in cs]),
                  nums(h, kind, [WA[i] for i in rs]),
                  form(h, kind, marks(rs, cs)))
        state(h, f"PolarDiagramTable({name})", t)
    wa = (-150, 40, 350, 400)  # 210, 40, 350, 40
    t = h.new("PolarDiagramTable(wa outside of a turn)", TABLE,
              nums(h, kind, WS), nums(h, kind, (-150, 30, 350, 400)),
              form(h, kind, FULL))
    state(h, "PolarDiagramTable(wa outside of a turn)", t,
          wa=(30, 40, 210, 350), rows=[FULL[i] for i in (1, 3, 0, 2)])


@entry("table entries", "prov", "winds", "turns")
def _(h):
    grids(h)
    t = table(h)
    for i, wa in enumerate(WA):
        for j, ws in enumerate(WS):
            for f in (int, float):
                x, y = const(f(ws)), const(f(wa))
                k = h.seq([x, y], typ="tuple")
                exp(h, "PolarDiagramTable[]",
                    m(h, "PolarDiagramTable[]", t, "__getitem__", k), b(i, j))
                exp(h, "PolarDiagramTable()()", call(
                    h, "PolarDiagramTable()()", t, x, y), b(i, j))
            exp(h, "PolarDiagramTable()(wa - 360)", call(
                h, "PolarDiagramTable()(wa - 360)", t, const(ws),
                const(wa - 360)), b(i, j))
    state(h, "PolarDiagramTable", t)


@entry("table points", "prov", "winds")
def _(h):
    grids(h)
    t = table(h)
    pts = [[ws, wa, b(i, j)] for i, wa in enumerate(WA)
           for j, ws in enumerate(WS)]
    exp(h, "default_points", h.attr(t, "default_points"), pts)
    exp(h, "get_points()", m(h, "get_points()", t, "get_points"), pts)
    w = [(8, 150), (6, 40), (10, 60)]
    want = [[8, 150, b(3, 1)], [6, 40, b(0, 0)], [10, 60, b(1, 2)]]
    a = arr(h, [[float(x) for x in p] for p in w])
    exp(h, "get_points((d, 2))", m(h, "get_points((d, 2))", t, "get_points",
                                   a), want)
    a = arr(h, [[float(p[0]) for p in w], [float(p[1]) for p in w]])
    exp(h, "get_points((2, d))", m(h, "get_points((2, d))", t, "get_points",
                                   a), want)
    p = h.seq([arr(h, [8.0, 6.0]), arr(h, [90.0, 40.0, 150.0])], typ="tuple")
    exp(h, "get_points(tuple)", m(h, "get_points(tuple)", t, "get_points",
                                  p),
        [[ws, wa, b(WA.index(wa), WS.index(ws))] for wa in (90, 40, 150)
         for ws in (8, 6)])


@entry("table port side", "prov", "winds", "turns")
def _(h):
    grids(h)
    wa = (20, 160, 200, 270)
    t = table(h, wa=wa)
    for i, a in enumerate(wa):
        for j, ws in enumerate(WS):
            for k in (0, 360, -360):
                exp(h, "PolarDiagramTable[port]", m(
                    h, "PolarDiagramTable[]", t, "__getitem__", h.seq(
                        [const(ws), const(a + k)], typ="tuple")), b(i, j))
                exp(h, "PolarDiagramTable()(port)", call(
                    h, "PolarDiagramTable()()", t, const(ws), const(a + k)),
                    b(i, j))
    x = m(h, "get_slices(n_steps)", t, "get_slices", lst(h, 6, 10),
          n_steps=1)
    exp(h, "get_slices(n_steps)", x, ([6, 8, 10], slices([6, 8, 10], wa)))
    out = [list(r) for r in FULL]
    for i, a in ((2, -160), (3, 270), (1, 160 + 360)):
        m(h, "change_entries(port)", t, "change_entries",
          val(h, [f"@x{i}{j}" for j in range(3)]), wa=const(a))
        out[i] = [f"@x{i}{j}" for j in range(3)]
        state(h, "change_entries(port)", t, wa=wa, rows=out)


def slices(ws, wa=WA, rows=None):
    rows = rows or FULL
    return [[[w] * len(wa), list(wa), [r[WS.index(w)] for r in rows]]
            for w in ws]


@entry("table slices", "prov", "winds")
def _(h):
    grids(h)
    t = table(h)
    exp(h, "default_slices", h.attr(t, "default_slices"), list(WS))
    for name, ws in (("all", None), ("one", [10]), ("two", [10, 6])):
        for full in (False, True):
            lab = f"PolarDiagramTable.get_slices({name})"
            r = m(h, lab, t, "get_slices", h.val(lst(h, *ws)) if ws else
                  const(None), full_info=full)
            want = [list(ws or WS), slices(ws or WS)]
            if full:
                want.append(ANY)
            exp(h, lab, r, tuple(want))
    r = m(h, "PolarDiagramTable.get_slices(scalar)", t, "get_slices",
          const(8))
    exp(h, "PolarDiagramTable.get_slices(scalar)", r, ([8], slices([8])))
    r = m(h, "PolarDiagramTable.ws_to_slices()", t, "ws_to_slices",
          lst(h, 10, 8))
    exp(h, "PolarDiagramTable.ws_to_slices()", r, slices([10, 8]))
    state(h, "PolarDiagramTable (after slicing)", t)


@entry("table changed", "prov", "winds", "turns")
def _(h):
    grids(h)

    def ch(label, new, rows, **kw):
        for kind in ("list", "array"):
            for zero in (False, True):
                base = FULL
                if zero:
                    t = h.new("PolarDiagramTable(zero)", TABLE, lst(h, *WS),
                              lst(h, *WA))
                    base = [[0] * 3 for _ in range(4)]
                else:
                    t = table(h)
                m(h, label, t, "change_entries", form(h, kind, new),
                  **{k: h.val(lst(h, *v)) if isinstance(v, list) else const(v)
                     for k, v in kw.items()})
                out = [list(r) for r in base]
                for (i, j), x in rows.items():
                    out[i][j] = x
                state(h, label, t, rows=out)
                for (i, j), x in rows.items():
                    exp(h, f"{label}: entry", call(
                        h, "PolarDiagramTable()()", t, const(WS[j]),
                        const(WA[i])), x)
                r = m(h, "PolarDiagramTable.get_slices(changed)", t,
                      "get_slices")
                exp(h, f"{label}: slices", r, (list(WS), slices(
                    WS, rows=out)))

    allx = [[f"@x{i}{j}" for j in range(3)] for i in range(4)]
    ch("change_entries(all)", allx, {
        (i, j): f"@x{i}{j}" for i in range(4) for j in range(3)})
    for j in range(3):
        ch("change_entries(ws)", [f"@x{i}" for i in range(4)],
           {(i, j): f"@x{i}" for i in range(4)}, ws=WS[j])
    ch("change_entries([ws])", [f"@x{i}" for i in range(4)],
       {(i, 1): f"@x{i}" for i in range(4)}, ws=[8])
    for i in range(4):
        ch("change_entries(wa)", [f"@x{j}" for j in range(3)],
           {(i, j): f"@x{j}" for j in range(3)}, wa=WA[i])
    ch("change_entries(wa - 360)", [f"@x{j}" for j in range(3)],
       {(2, j): f"@x{j}" for j in range(3)}, wa=90 - 360)
    ch("change_entries(scalar)", ["@x"], {(2, 1): "@x"}, ws=8, wa=90)
    ch("change_entries(one)", ["@x"], {(3, 0): "@x"}, ws=[6], wa=[150])
    ch("change_entries(block)", [["@x00", "@x01"], ["@x10", "@x11"],
                                 ["@x20", "@x21"]],
       {(i, j): f"@x{p}{q}" for p, i in enumerate((0, 2, 3))
        for q, j in enumerate((0, 2))}, ws=[6, 10], wa=[40, 90, 150])
    ch("change_entries(listed order)", [["@x00", "@x01"], ["@x10", "@x11"]],
       {(2, 2): "@x00", (2, 0): "@x01", (0, 2): "@x10", (0, 0): "@x11"},
       ws=[10, 6], wa=[90, 40])
    ch("change_entries(listed order, one wind angle)", ["@x0", "@x1"],
       {(1, 1): "@x0", (1, 0): "@x1"}, ws=[8, 6], wa=60)


@entry("table mirrored", "prov", "winds", "turns")
def _(h):
    grids(h)
    for name, wa in (("plain", (40, 60, 90, 150)),
                     ("180", (40, 90, 150, 180)),
                     ("0", (0, 40, 90, 150)),
                     ("0 and 180", (0, 40, 90, 180)),
                     ("right side", (200, 270, 300, 340))):
        t = table(h, wa=wa)
        lab = f"PolarDiagramTable.symmetrize({name})"
        s = m(h, lab, t, "symmetrize")
        pairs = {a: FULL[i] for i, a in enumerate(wa)}
        for i, a in enumerate(wa):
            pairs[(360 - a) % 360] = FULL[i]
        ks = sorted(pairs)
        state(h, lab, s, wa=ks, rows=[pairs[k] for k in ks])
        state(h, lab + " (source)", t, wa=wa)


# ------------------------------------------------------ point clouds
PTS = [(8, 40, "@b0"), (6, 350, "@b1"), (8, 200, "@b2"), (12, 90, "@b3"),
       (9, 40, "@b4")]


def rows(pts=PTS):
    return [list(p) for p in pts]


def cloud(h, kind="list", pts=PTS, label="PolarDiagramPointcloud()", **kw):
    return h.new(label, CLOUD, form(h, kind, [
        [float(x) if not isinstance(x, str) else x for x in p]
        for p in pts]), **kw)


def cstate(h, label, c, pts):
    exp(h, f"{label}: points", h.attr(c, "points"), Un(rows(pts)))
    exp(h, f"{label}: wind_speeds", h.attr(c, "wind_speeds"),
        sorted({p[0] for p in pts}))
    exp(h, f"{label}: wind_angles", h.attr(c, "wind_angles"),
        sorted({p[1] for p in pts}))
    exp(h, f"{label}: boat_speeds", h.attr(c, "boat_speeds"),
        Un([p[2] for p in pts]))
    exp(h, f"{label}: default_points", h.attr(c, "default_points"),
        Un(rows(pts)))


@entry("cloud built", "prov", "winds", "turns", forms=FORMS)
def _(h, kind):
    grids(h)
    c = cloud(h, kind)
    cstate(h, "PolarDiagramPointcloud()", c, PTS)
    c = cloud(h, kind, [(8, 400, "@b0"), (6, -10, "@b1"), (8, 200, "@b2"),
                        (12, 90, "@b3"), (9, -320, "@b4")])
    cstate(h, "PolarDiagramPointcloud(wa outside of a turn)", c, PTS)


@entry("cloud values", "prov", "winds", "turns")
def _(h):
    grids(h)
    c = cloud(h)
    for ws, wa, x in PTS:
        for k in (0, 360, -360):
            for f in (int, float):
                exp(h, "PolarDiagramPointcloud()()", call(
                    h, "PolarDiagramPointcloud()()", c, const(f(ws)),
                    const(f(wa + k))), x)
    a = arr(h, [[8.0, 200.0], [9.0, 40.0]])
    exp(h, "get_points((d, 2))", m(h, "get_points()", c, "get_points", a),
        [[8, 200, "@b2"], [9, 40, "@b4"]])
    exp(h, "get_points()", m(h, "get_points()", c, "get_points"),
        Un(rows()))
    cstate(h, "PolarDiagramPointcloud", c, PTS)


@entry("cloud growth", "prov", "winds", "turns")
def _(h):
    grids(h)
    for kind in FORMS:
        c = cloud(h, kind)
        new = [(7, -30, "@c0"), (6, 180, "@c1")]
        m(h, "add_points()", c, "add_points", form(h, kind, [
            [float(p[0]), float(p[1]), p[2]] for p in new]))
        want = PTS + [(7, 330, "@c0"), (6, 180, "@c1")]
        cstate(h, "add_points()", c, want)
        exp(h, "add_points(): value", call(
            h, "PolarDiagramPointcloud()()", c, const(7.0), const(330.0)),
            "@c0")
        m(h, "add_points(again)", c, "add_points", form(h, kind, [
            [11.0, 20.0, "@d0"]]))
        cstate(h, "add_points(again)", c, want + [(11, 20, "@d0")])


@entry("cloud mirrored", "prov", "winds", "turns")
def _(h):
    grids(h)
    pts = [p for p in PTS if p[1] < 180]
    for name, ps in (("left", pts), ("both", PTS)):
        c = cloud(h, pts=ps)
        s = m(h, f"PolarDiagramPointcloud.symmetrize({name})", c,
              "symmetrize")
        cstate(h, f"PolarDiagramPointcloud.symmetrize({name})", s,
               ps + [(p[0], 360 - p[1], p[2]) for p in ps])
        cstate(h, "PolarDiagramPointcloud (source)", c, ps)


def cslice(ws, r=1, pts=PTS):
    return Cols([list(p) for p in pts if abs(p[0] - ws) <= r])


@entry("cloud slices", "prov", "winds")
def _(h):
    grids(h)
    c = cloud(h)
    for r in (None, 0.5, 2, 3):
        for ws in ([8.0], [12.0, 6.0], [9, 8]):
            kw = {} if r is None else {"range_": r}
            for full in (False, True):
                lab = f"PolarDiagramPointcloud.get_slices(range {r})"
                x = m(h, lab, c, "get_slices", lst(h, *ws), full_info=full,
                      **kw)
                want = [ws, [cslice(w, r or 1) for w in ws]]
                exp(h, lab, x, tuple(want + [ANY] * full))
    x = m(h, "PolarDiagramPointcloud.get_slices(scalar)", c, "get_slices",
          const(8.0))
    exp(h, "PolarDiagramPointcloud.get_slices(scalar)", x,
        ([8], [cslice(8)]))
    cstate(h, "PolarDiagramPointcloud (after slicing)", c, PTS)


# ------------------------------------------------------ several sails
def fleet(h, names=("jib", "spi")):
    t = table(h)
    u = h.new("PolarDiagramTable()", TABLE, lst(h, *WS), lst(h, 30, 100),
              val(h, [["@c00", "@c01", "@c02"], ["@c10", "@c11", "@c12"]]))
    ms = h.new("PolarDiagramMultiSails()", SAILS, h.seq([t, u]),
               lst(h, *names))
    return t, u, ms


CF = [["@c00", "@c01", "@c02"], ["@c10", "@c11", "@c12"]]


def join2(ws):
    out = []
    for a, c in zip(slices(ws), slices(ws, (30, 100), CF)):
        out.append(Cols([list(k) for k in zip(*a)]
                        + [list(k) for k in zip(*c)]))
    return out


@entry("sails", "prov", "winds")
def _(h):
    grids(h)
    t, u, ms = fleet(h)
    exp(h, "sails", h.attr(ms, "sails"), ["jib", "spi"])
    state(h, "sails['jib']", m(h, "sails[]", ms, "__getitem__",
                               const("jib")))
    state(h, "sails['spi']", m(h, "sails[]", ms, "__getitem__",
                               const("spi")), wa=(30, 100), rows=CF)
    for ws in ([8], [10, 6]):
        x = m(h, "PolarDiagramMultiSails.get_slices()", ms, "get_slices",
              lst(h, *ws))
        exp(h, "PolarDiagramMultiSails.get_slices()", x, (ws, join2(ws)))
        x = m(h, "PolarDiagramMultiSails.get_slices(info)", ms, "get_slices",
              lst(h, *ws), full_info=True)
        exp(h, "PolarDiagramMultiSails.get_slices(info)", x,
            (ws, join2(ws), [["jib"] * 4 + ["spi"] * 2] * len(ws)))
    exp(h, "default_points", h.attr(ms, "default_points"), Un(
        [[ws, wa, b(i, j)] for i, wa in enumerate(WA)
         for j, ws in enumerate(WS)] +
        [[ws, wa, CF[i][j]] for i, wa in enumerate((30, 100))
         for j, ws in enumerate(WS)]))
    s = m(h, "PolarDiagramMultiSails.symmetrize()", ms, "symmetrize")
    exp(h, "sails", h.attr(s, "sails"), ["jib", "spi"])
    state(h, "symmetrize()['spi']", m(h, "sails[]", s, "__getitem__",
                                      const("spi")),
          wa=(30, 100, 260, 330), rows=CF + CF[::-1])
    for n, k in ((("a",), ["a", "Sail 1"]), (("a", "b", "c"), ["a", "b"])):
        _, _, ms = fleet(h, n)
        exp(h, "sails", h.attr(ms, "sails"), k)
    ms = h.new("PolarDiagramMultiSails(no names)", SAILS, h.seq([t, u]))
    exp(h, "sails", h.attr(ms, "sails"), ["Sail 0", "Sail 1"])


# ------------------------------------------------------ files
def rt(h, d, label, fmt=None):
    p = lpath("MARKS")
    a = [] if fmt is None else [const(fmt)]
    m(h, f"{label}.to_csv({fmt or ''})", d, "to_csv", p, *a)
    return call(h, f"from_csv({fmt or ''})", PD + "from_csv", p, *a)


@entry("table file", "prov", "winds", "stored", forms=("hro", "array", "orc",
                                            "opencpn"))
def _(h, fmt):
    grids(h)
    t = table(h)
    state(h, f"from_csv({fmt})", rt(h, t, "PolarDiagramTable", fmt))


@entry("cloud file", "prov", "winds", "stored")
def _(h):
    grids(h)
    c = cloud(h)
    cstate(h, "from_csv()", rt(h, c, "PolarDiagramPointcloud"), PTS)


@entry("sails file", "prov", "winds", "stored")
def _(h):
    grids(h)
    _, _, ms = fleet(h)
    r = rt(h, ms, "PolarDiagramMultiSails")
    exp(h, "sails", h.attr(r, "sails"), ["jib", "spi"])
    state(h, "from_csv()['jib']", m(h, "sails[]", r, "__getitem__",
                                    const("jib")))
    state(h, "from_csv()['spi']", m(h, "sails[]", r, "__getitem__",
                                    const("spi")), wa=(30, 100), rows=CF)
