"""Abstract clients: which points filters and neighbourhoods keep, if only the
order of the weights (distances) is known."""
from .domain import const
from .entries import PR, entry
from .entries6 import exp, m
from .entries7 import grids
from .entries14 import array

ORDER = {c: (10. * i + 1, 10. * i + 4) for i, c in enumerate("abcdefgh")}
NORM = '''
def first(pts):
    return pts[:, 0]
'''


def rank(w):
    return ORDER[w[1]]


@entry("share kept", "prov", "share", forms=("quantile", "bound"))
def _(h, form):
    grids(h)
    rows = ("@c0 @a0 @b0", "@a0 @b0 @c0 @d0 @e0", "@e0 @d0 @c0 @b0",
            "@b0 @h0 @a0 @d0 @g0 @e0 @f0 @c0", "@d0", "@h0 @a0")
    if form == "quantile":
        for p in (50, 0, 100, 25, 80, 37.5, 99):
            f = h.new("QuantileFilter()", PR + "QuantileFilter", const(p))
            for ws in rows:
                ws = ws.split()
                x = (len(ws) - 1) * p / 100
                keep = sorted(ws)[int(x) + (x != int(x)):]
                exp(h, "QuantileFilter.filter(ordered)", m(
                    h, "QuantileFilter.filter()", f, "filter",
                    array(h, ws, ORDER)), [w in keep for w in ws])
        return
    for lo, hi in ((9, 26), (-3, 100), (5, 5), (36, 99)):
        f = h.new("BoundFilter()", PR + "BoundFilter", const(lo), const(hi))
        for ws in rows:
            ws = ws.split()
            exp(h, "BoundFilter.filter(ordered)", m(
                h, "BoundFilter.filter()", f, "filter",
                array(h, ws, ORDER)),
                [lo <= rank(w)[0] <= hi for w in ws])


@entry("share contained", "prov", "share", forms=("1", "3", "4", "5"))
def _(h, form):
    grids(h)
    k = int(form)
    norm = h.get(h.client("norm1", NORM) + ".first")
    n = h.new("ScalingBall()", PR + "ScalingBall", const(k), norm=norm)
    for ws in ("@c0 @a0 @b0 @e0 @d0", "@a0 @b0 @c0 @d0 @e0",
               "@h0 @d0 @g0 @b0 @e0 @f0", "@b0 @h0 @a0 @d0 @g0 @e0 @f0 @c0"):
        ws = ws.split()
        exp(h, "ScalingBall.is_contained_in(ordered)", m(
            h, "ScalingBall.is_contained_in()", n, "is_contained_in",
            array(h, [[w, "@x" + w[1:]] for w in ws],
                  dict(ORDER, x=(-5, 5)))),
            [w in sorted(ws)[:k] for w in ws])
