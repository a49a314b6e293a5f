"""Contracts standing for arbitrary user-supplied components."""
from .domain import (
    BOOL, E0, FLOAT, INT, NONE, STR, UNK, Arr, Const, Dict, Inst, Loc,
    Opaque, Seq, V, const, join, joinall, obj, prim,
)
from .extlib import Plain
from .interp import Args, Bottom
from .nparr import R

INF = float("inf")


class Callable_(Plain):
    """an arbitrary callable; `fn(I, args, st, node, labels) -> V`"""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def getattr(self, I, o, h, name, st, node):
        if name in ("__name__", "__qualname__"):
            return prim("str", fnname=o)
        return super().getattr(I, o, h, name, st, node)

    def call(self, I, o, h, args, st, node):
        I.emit("opaque-call", node, name=self.name, args=args, st=st, loc=o,
               method=None)
        lab = I.ext.labs(args.all(), st)
        return self.fn(I, args, st, node, lab)


class Comp(Plain):
    """a component: methods given as name -> fn(I, args, st, node, lab)"""

    def __init__(self, name, methods, labels=()):
        self.name = name
        self.methods = methods
        self.labels = frozenset(labels)

    def method(self, I, o, h, name, args, st, node):
        I.emit("opaque-call", node, name=self.name, method=name, args=args,
               st=st, loc=o)
        fn = self.methods.get(name)
        lab = I.ext.labs(args.all(), st)
        if fn is None:
            return prim("unk", lab=lab)
        return fn(I, args, st, node, lab)


# ----------------------------------------------------------- behaviours
def norm_fn(I, args, st, node, lab):
    v = args.get(0, "vec")
    d = I.ext.desc(v, st, node)
    lab = lab | {"DIST"}
    e = prim("float", lab=lab, iv=(0, INF, False, True),
             z=frozenset(("DIST",)))
    if d.rank >= 2:
        ax = d.axes[0]
        return I.ext.arr(st, node, (ax if ax != "F" else R(None),), None, e,
                         extra="norm", lab=lab)
    return e


def abs_norm_fn(I, args, st, node, lab):
    return I.ext.unary_ew(args.get(0, "vec"), st, node)


def interpolate_fn(I, args, st, node, lab):
    return prim("float", lab=lab, role="BSP")


def mask_fn(I, args, st, node, lab):
    d = I.ext.desc(args.get(0, "pts"), st, node)
    ax = d.axes[0] if d.rank else R(None)
    return I.ext.arr(st, node, (ax if ax != "F" else R(None),), None,
                     BOOL.withlab(lab), extra="nbh", lab=lab)


def float_like_fn(role=None):
    """elementwise function of its array arguments"""

    def fn(I, args, st, node, lab):
        ds = [I.ext.desc(a, st, node) for a in args.pos]
        f = {"role": role} if role else {}
        e = V(prims=frozenset(("float",)), lab=lab, f=f)
        best = max(ds, key=lambda d: d.rank, default=None)
        if best is None or best.rank == 0:
            return e
        axes = tuple(R(None) if a == "F" else a for a in best.axes)
        return I.ext.arr(st, node, axes, None, e, extra="ufn", lab=lab)

    return fn


def unk_fn(I, args, st, node, lab):
    return prim("unk", lab=lab)
