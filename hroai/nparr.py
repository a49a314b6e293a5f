"""Array model: views, copies, index spaces, elementwise transfer."""
import ast
import itertools
import math

from . import domain as D
from .domain import (
    BOT, E0, FALSE, FLOAT, INT, NONE, TRUE, UNK, Arr, Bound, Buf, Const,
    Dict, Ext, ExtBound, Func, Inst, Loc, Opaque, Seq, V, const, interval,
    join, join_states, joinall, obj, prim,
)

ONE = "1"
PLAIN = ("ang", "role", "raw", "iv", "trunc", "mix")


def R(space=None):
    return ("R", space)


def is_r(a):
    return a != "F"


def nonempty(space):
    return (
        space == ONE
        or (isinstance(space, tuple) and space and space[0] == "fix"
            and space[1] > 0)
        or (isinstance(space, tuple) and space and space[0] == "root"
            and len(space) > 2 and space[2] == "ne")
        or (isinstance(space, tuple) and space and space[0] in (
            "sorted", "perm", "flip") and nonempty(space[1]))
        or (isinstance(space, tuple) and space and space[0] == "prod"
            and nonempty(space[1]) and nonempty(space[2]))
    )


class Desc:
    """shape and contents of an array-like value"""

    __slots__ = ("axes", "fields", "rest", "elem", "lab")

    def __init__(self, axes, fields=None, rest=None, elem=None, lab=E0):
        self.axes = tuple(axes)
        self.fields = tuple(fields) if fields is not None else None
        self.rest = rest
        self.elem = elem
        self.lab = lab

    def all(self):
        vs = list(self.fields or ())
        if self.rest is not None:
            vs.append(self.rest)
        if self.elem is not None:
            vs.append(self.elem)
        return joinall(vs, BOT)

    @property
    def rank(self):
        return len(self.axes)


class Arrays:
    # ------------------------------------------------------ construction
    def arr(self, st, node, axes, fields=None, elem=None, rest=None,
            dtype=None, extra=None, lab=E0, prov=None, **f):
        b = Buf(tuple(fields) if fields is not None else None, rest, elem,
                prov, dtype)
        loc = self.I.alloc(st, node, b, extra)
        return V(frozenset((Arr(loc, tuple(axes), None),)), lab=lab, f=f)

    def from_desc(self, d, st, node, extra=None, dtype=None, prov=None,
                  **f):
        if d.rank == 0:
            v = d.all()
            return v.withlab(d.lab)
        if "F" in d.axes and d.fields is None:
            axes = tuple(R(None) if a == "F" else a for a in d.axes)
            return self.arr(st, node, axes, None, d.all(), None, dtype,
                            extra, d.lab, prov, **f)
        if "F" not in d.axes:
            return self.arr(st, node, d.axes, None, d.all(), None, dtype,
                            extra, d.lab, prov, **f)
        return self.arr(st, node, d.axes, d.fields, d.elem, d.rest, dtype,
                        extra, d.lab, prov, **f)

    def desc_arr(self, o, st, lab=E0):
        b = st.heap.get(o.buf)
        if b is None:
            return Desc(o.axes, None, None, UNK, lab)
        extra = [b.parts[1]] if b.parts is not None else []
        if "F" in o.axes and b.fields is not None:
            fs = self.sel_fields(b, o)
            if extra:
                fs = [joinall([x] + extra) for x in fs]
            el = b.elem
            if el is not None:
                fs = [join(x, el) for x in fs]
            return Desc(o.axes, fs, b.rest if o.sel is None else None, None,
                        lab)
        if b.fields is not None:
            vs = self.sel_fields(b, o)
            if o.sel is None and b.rest is not None:
                vs = vs + [b.rest]
            if b.elem is not None:
                vs = vs + [b.elem]
            return Desc(o.axes, None, None, joinall(vs + extra, BOT), lab)
        return Desc(o.axes, None, None,
                    joinall(([b.elem] if b.elem is not None else [])
                            + extra, BOT), lab)

    def sel_fields(self, b, o):
        if o.sel is None:
            return list(b.fields)
        out = []
        for i in o.sel:
            if i == "rest":
                if b.rest is not None:
                    out.append(b.rest)
            elif i < len(b.fields):
                out.append(b.fields[i])
        return out

    def arr_join(self, o, st):
        return self.desc_arr(o, st).all()

    def join_desc(self, ds, st=None, node=None):
        ds = list(ds)
        if not ds:
            return Desc((R(None),), None, None, BOT)
        d0 = ds[0]
        lab = frozenset().union(*[d.lab for d in ds])
        if any(d.rank != d0.rank for d in ds):
            e = joinall([d.all() for d in ds])
            n = max(d.rank for d in ds)
            return Desc([R(None)] * n, None, None, e, lab)
        axes = []
        for i in range(d0.rank):
            xs = {d.axes[i] for d in ds}
            if len(xs) == 1:
                axes.append(next(iter(xs)))
            elif "F" in xs:
                axes.append("F" if all(
                    x == "F" or x == R(None) for x in xs) else R(None))
            else:
                axes.append(R(None))
        if "F" in axes and all(
            d.fields is not None and len(d.fields) == len(d0.fields or ())
            for d in ds
        ):
            fs = [joinall([d.fields[i] for d in ds])
                  for i in range(len(d0.fields))]
            rs = [d.rest for d in ds if d.rest is not None]
            return Desc(axes, fs, joinall(rs) if rs else None, None, lab)
        axes = [R(None) if a == "F" else a for a in axes]
        return Desc(axes, None, None, joinall([d.all() for d in ds]), lab)

    def is_nested(self, v, st):
        for o in v.objs:
            if isinstance(o, Arr) and o.axes:
                return True
            h = self.heap(o, st)
            if isinstance(h, Seq) and h.typ != "slice":
                return True
            if isinstance(h, Inst) and isinstance(h.tag, tuple) and h.tag[
                :1
            ] == ("nt",):
                return True
        return False

    def desc(self, v, st, node=None, depth=0):
        """descriptor of any value taken as an array-like"""
        ds = []
        for a in self.alts(v):
            ds.append(self.desc1(a, st, node, depth))
        if len(ds) == 1:
            return ds[0]
        if not ds:
            return Desc((), None, None, BOT)
        return self.join_desc(ds)

    def desc1(self, a, st, node, depth):
        o = a.single()
        if o is None:
            return Desc((), None, None, a)
        if isinstance(o, Arr):
            return self.desc_arr(o, st, a.lab)
        h = self.heap(o, st)
        if isinstance(h, Seq) and h.typ != "slice" and depth < 5:
            d = self.desc_seq(h, st, node, depth)
            d.lab = d.lab | a.lab
            return d
        if isinstance(h, Inst) and isinstance(h.tag, tuple) and h.tag[
            :1
        ] == ("nt",):
            return Desc(("F",), [h.fields[n] for n in h.tag[1]], None, None,
                        a.lab)
        if isinstance(h, Dict):
            return Desc((), None, None, prim(
                "unk", lab=self.I.deep_labels(a, st)))
        return Desc((), None, None, a)

    def desc_seq(self, h, st, node, depth):
        pre = list(h.prefix)
        if h.rest is None and pre:
            ds = [self.desc(e, st, node, depth + 1) for e in pre]
            lab = frozenset().union(*[d.lab for d in ds])
            if all(d.rank == 0 for d in ds):
                if len(ds) <= 24:
                    return Desc(("F",), [d.all() for d in ds], None, None,
                                lab)
                return Desc((R(h.space),), None, None,
                            joinall([d.all() for d in ds]), lab)
            if all(d.rank == ds[0].rank for d in ds):
                if all("F" not in d.axes for d in ds) and len(ds) <= 24:
                    ax = []
                    for i in range(ds[0].rank):
                        ax.append(R(self.merge_spaces(
                            [d.axes[i][1] for d in ds], st, node)))
                    return Desc(["F"] + ax, [d.all() for d in ds], None,
                                None, lab)
                j = self.join_desc(ds)
                sp = h.space if h.space is not None else (
                    ("fix", len(ds)) if len(ds) > 1 else ONE)
                return Desc([R(sp)] + list(j.axes), j.fields, j.rest,
                            j.elem, j.lab)
            e = joinall([d.all() for d in ds])
            return Desc((R(h.space),), None, None, e, lab)
        if h.rest is None:
            return Desc((R(h.space if h.space is not None else ("fix", 0)),),
                        None, None, BOT)
        ds = [self.desc(e, st, node, depth + 1)
              for e in pre + ([h.rest] if not h.rest.bottom() else [])]
        if not ds:
            return Desc((R(h.space),), None, None, BOT)
        if all(d.rank == 0 for d in ds):
            return Desc((R(h.space),), None, None,
                        joinall([d.all() for d in ds]),
                        frozenset().union(*[d.lab for d in ds]))
        j = self.join_desc(ds)
        return Desc([R(h.space)] + list(j.axes), j.fields, j.rest, j.elem,
                    j.lab)

    def merge_spaces(self, sps, st, node):
        known = [s for s in sps if s is not None and s != ONE]
        if not known:
            return ONE if sps and all(s == ONE for s in sps) else None
        s0 = known[0]
        for s in known[1:]:
            if s != s0:
                self.I.emit("space-mismatch", node, a=s0, b=s, st=st)
        if len(set(known)) > 1:
            return None
        return s0

    def to_array(self, v, st, node, copy=False, extra=None):
        """np.asarray (copy=False) or np.array (copy=True)"""
        outs = []
        for i, a in enumerate(self.alts(v)):
            o = a.single()
            ex = ("toarr", extra, i)
            if o is None:
                if "unk" in a.prims:
                    outs.append(V(E0, frozenset(("unk",)), E0, a.lab,
                                  {k: x for k, x in a.f.items()
                                   if k in ("ang", "role", "raw")}))
                    continue
                outs.append(self.arr(st, node, (), None, a, None, None, ex,
                                     a.lab))
                continue
            if isinstance(o, Arr) and not copy:
                outs.append(a)
                continue
            h = self.heap(o, st)
            if isinstance(o, Arr) or (
                isinstance(h, Seq) and h.typ in ("list", "tuple")
            ) or isinstance(h, Inst) and isinstance(h.tag, tuple):
                d = self.desc1(a, st, node, 0)
                prov = None
                if isinstance(o, Arr):
                    b = st.heap.get(o.buf)
                    if b is not None and o.sel is None:
                        prov = b.prov
                if d.rank == 0:
                    outs.append(self.arr(st, node, (), None, d.all(), None,
                                         None, ex, d.lab))
                else:
                    outs.append(self.from_desc(d, st, node, ex, prov=prov))
                continue
            if isinstance(h, Seq):  # generators, sets: object arrays
                outs.append(prim("unk", lab=self.I.deep_labels(a, st)))
                continue
            if isinstance(h, Opaque):
                outs.append(prim("unk", lab=self.I.deep_labels(a, st)))
                continue
            # an object array
            outs.append(self.arr(st, node, (), None,
                                 prim("unk", lab=self.I.deep_labels(a, st)),
                                 None, "object", ex, a.lab))
        return joinall(outs, UNK)

    # ------------------------------------------------------ elementwise
    def elementwise(self, fn, vals, st, node, op=None, dtype=None):
        al = [self.alts(v) for v in vals]
        if any(not x for x in al):
            return BOT
        outs = []
        for i, combo in enumerate(itertools.islice(
                itertools.product(*al), 24)):
            r = self._ew(fn, combo, st, node, ("ew", i), dtype)
            if r is not None:
                outs.append(r)
        return joinall(outs, BOT)

    def _ew(self, fn, vals, st, node, extra, dtype):
        ds = []
        anyarr = False
        for a in vals:
            o = a.single()
            h = self.heap(o, st) if o is not None else None
            if isinstance(o, Arr):
                anyarr = True
                ds.append(self.desc_arr(o, st, a.lab))
            elif isinstance(h, Seq) and h.typ in ("list", "tuple", "iter"):
                anyarr = True
                ds.append(self.desc1(a, st, node, 0))
            else:
                ds.append(Desc((), None, None, a))
        lab = frozenset().union(*[a.lab for a in vals])
        if not anyarr:
            r = fn(*vals)
            return r
        axes = self.broadcast([d.axes for d in ds], st, node)
        if not axes:
            r = fn(*[d.all() for d in ds])
            return r.withlab(lab) if r is not None else None
        if "F" in axes:
            pos = len(axes) - 1 - axes.index("F")  # distance from the right
            n = None
            for d in ds:
                k = d.rank - 1 - pos
                if 0 <= k < d.rank and d.axes[k] == "F" and d.fields is not \
                        None:
                    m = len(d.fields)
                    if m == 1 and n not in (None, 1):
                        continue
                    if n is None or n == 1:
                        n = m
                    elif n != m:
                        n = min(n, m)
            if n is None:
                axes = tuple(R(None) if a == "F" else a for a in axes)
            else:
                fs = []
                rest = None
                for i in range(n):
                    fs.append(self._scal(fn, [self._field(d, pos, i)
                                              for d in ds]))
                if any(d.rest is not None for d in ds):
                    rest = self._scal(fn, [
                        d.rest if d.rest is not None else d.all()
                        for d in ds])
                return self.arr(st, node, axes, fs, None, rest, dtype,
                                extra, lab)
        e = self._scal(fn, [d.all() for d in ds])
        return self.arr(st, node, axes, None, e, None, dtype, extra, lab)

    def _scal(self, fn, vals):
        r = fn(*vals)
        return BOT if r is None else r

    def _field(self, d, pos, i):
        k = d.rank - 1 - pos
        if 0 <= k < d.rank and d.axes[k] == "F" and d.fields is not None:
            if len(d.fields) == 1:
                return d.fields[0]
            if i < len(d.fields):
                return d.fields[i]
        return d.all()

    def broadcast(self, axs, st, node):
        n = max(len(a) for a in axs)
        out = []
        hasF = False
        for p in range(n):  # from the right
            here = [a[len(a) - 1 - p] for a in axs if len(a) > p]
            if "F" in here:
                if hasF:
                    out.append(R(None))
                else:
                    out.append("F")
                    hasF = True
                continue
            sp = [x[1] for x in here]
            out.append(R(self.merge_spaces(sp, st, node)))
        return tuple(reversed(out))

    # ------------------------------------------------------ iteration
    def arr_iter(self, o, lab, st, node):
        if not o.axes:
            self.raise_alt("TypeError", st)
            return []
        a0 = o.axes[0]
        rest_axes = o.axes[1:]
        b = st.heap.get(o.buf)
        if a0 == "F" and b is not None and b.fields is not None:
            idx = o.sel if o.sel is not None else tuple(
                range(len(b.fields)))
            pre = [self.sub(o.buf, rest_axes, (i,), st).withlab(lab)
                   for i in idx]
            rest = None
            if o.sel is None and b.rest is not None:
                rest = self.sub(o.buf, rest_axes, ("rest",), st).withlab(
                    lab)
            return [("arr", pre, rest, None)]
        sp = a0[1] if a0 != "F" else None
        k = 1 if sp == ONE else sp[1] if isinstance(sp, tuple) and \
            sp[0] == "fix" else None
        if k is not None and k <= 24:
            return [("arr", [self.sub(o.buf, rest_axes, o.sel, st)
                             .withlab(lab)] * k, None, None)]
        return [("arr", [], self.sub(o.buf, rest_axes, o.sel, st).withlab(
            lab), sp)]

    def sub(self, buf, axes, sel, st):
        """view, or the element value itself when no axis is left"""
        a = Arr(buf, axes, sel)
        if axes:
            return obj(a)
        return self.arr_join(a, st)

    # ------------------------------------------------------ indexing
    def norm_index(self, idx, st):
        """list of index components (values)"""
        o = idx.single()
        h = self.heap(o, st)
        if isinstance(h, Seq) and h.typ == "tuple":
            if h.rest is None:
                return list(h.prefix)
            return None
        return [idx]

    def arr_getitem(self, o, idx, st, node):
        b = st.heap.get(o.buf)
        if b is not None and b.prov and b.prov[0] == "matrix":
            r = self.matrix_getitem(o, b, idx, st, node)
            if r is not None:
                return r
        comps = self.norm_index(idx, st)
        self.I.may_raise(st)
        ilab = self.I.deep_labels(idx, st, 3)
        if comps is None or any(
            ("unk" in c.prims and not c.objs) or self.opaque_index(c, st)
            for c in comps
        ):
            d = self.desc_arr(o, st)
            return prim("unk", lab=d.all().lab | ilab)
        r = self.select(o, comps, st, node)
        if r is None:
            self.raise_alt("IndexError", st)
            return None
        kind, axes, sel, spec = r
        if kind == "view":
            return self.sub(o.buf, axes, sel, st).withlab(ilab)
        # fancy indexing copies
        d = self.desc_arr(Arr(o.buf, axes, sel), st)
        if spec.get("part"):
            d = self.part_desc(o, Arr(o.buf, axes, sel), spec["part"], st)
        d.lab = d.lab | ilab
        prov = spec.get("prov")
        return self.from_desc(d, st, node, ("fancy",), prov=prov)

    def opaque_index(self, c, st):
        o = c.single()
        if o is None or isinstance(o, Arr):
            return False
        h = self.heap(o, st)
        return not isinstance(h, Seq)

    def part_desc(self, o, view, part, st):
        b = st.heap.get(o.buf)
        if b is None or b.parts is None or b.parts[0][0] != part[0]:
            return self.desc_arr(view, st)
        key, val = b.parts
        if key == part:
            return Desc(view.axes, None, None, val)
        b2 = b.clone()
        b2.parts = None
        s2 = st.clone()
        s2.heap[o.buf] = b2
        return self.desc_arr(view, s2)

    def matrix_getitem(self, o, b, idx, st, node):
        comps = self.norm_index(idx, st)
        if comps is None or len(comps) != 2 or len(o.axes) != 2:
            return None
        _, row0, col0, body, corner = b.prov
        ks = []
        for c in comps:
            try:
                k = self.const_index(c, st)
            except LookupError:
                return None
            if k == 0:
                ks.append("0")
            elif isinstance(k, slice) and k.start == 1 and k.stop is None \
                    and k.step is None:
                ks.append("1:")
            else:
                return None
        if ks == ["0", "1:"]:
            return self.arr(st, node, (R(("mrow", o.buf)),), None, row0,
                            None, None, ("m", 1))
        if ks == ["1:", "0"]:
            return self.arr(st, node, (R(("mcol", o.buf)),), None, col0,
                            None, None, ("m", 2))
        if ks == ["1:", "1:"]:
            return self.arr(st, node, (R(("mcol", o.buf)),
                                       R(("mrow", o.buf))), None, body,
                            None, None, ("m", 3))
        return corner

    def mask_of(self, c, st):
        """('mask', ...) information if index component is a boolean mask"""
        o = c.single()
        if isinstance(o, Arr):
            b = st.heap.get(o.buf)
            if b is None:
                return None
            e = self.arr_join(o, st)
            if b.prov and b.prov[0] in ("mask", "ixmask"):
                return b.prov[1], b.prov[2], o.axes, b.prov[0]
            if b.dtype == "bool" or (e.prims | {
                D.kind_of_const(k.v) for k in e.consts
            }) == {"bool"}:
                return (o.buf.key, True, o.axes, "mask")
            return None
        h = self.heap(o, st)
        if isinstance(h, Seq) and h.typ == "list":
            e = h.elem()
            ks = e.prims | {D.kind_of_const(k.v) for k in e.consts}
            if ks == {"bool"} and not e.objs:
                return (o.key, True, (R(h.space),), "mask")
        if isinstance(h, Opaque):
            return None
        return None

    def mask_consts(self, c, st):
        """entries of a one-dimensional mask if all of them are known"""
        o = c.single()
        if isinstance(o, Arr):
            vs = self.desc_arr(o, st).fields if o.axes == ("F",) else None
            b = st.heap.get(o.buf)
            if vs is not None and o.sel is None and b.rest is not None:
                return None
        else:
            h = self.heap(o, st)
            vs = h.prefix if isinstance(h, Seq) and h.rest is None else None
        if not vs or not all(
            v.is_const() and isinstance(v.const(), bool) for v in vs
        ):
            return None
        return [v.const() for v in vs]

    def select(self, o, comps, st, node):
        """(kind, axes, sel, spec) of indexing `o` with components"""
        axes = list(o.axes)
        b = st.heap.get(o.buf)
        nf = None
        if b is not None and b.fields is not None:
            nf = o.sel if o.sel is not None else tuple(
                range(len(b.fields)))
        out = []
        sel = o.sel
        kind = "view"
        spec = {}
        i = 0
        # expand ellipsis
        if any(c.is_const() and c.const() == "..." for c in comps):
            k = [n for n, c in enumerate(comps)
                 if c.is_const() and c.const() == "..."][0]
            used = sum(1 for c in comps if not (
                c.is_const() and c.const() in ("...", None)))
            fill = max(0, len(axes) - used)
            full = V(consts=frozenset((Const("fullslice"),)))
            comps = comps[:k] + [full] * fill + comps[k + 1:]
        fancy_space = None
        fancy_at = None
        for c in comps:
            if c.is_const() and c.const() is None:
                out.append(R(ONE))
                continue
            m = self.mask_of(c, st)
            if m is not None:
                key, pol, maxes, mk = m
                n = max(1, len(maxes)) if mk == "mask" else 1
                if i + n > len(axes):
                    if len(axes) - i <= 0:
                        return None
                    n = len(axes) - i
                took = axes[i: i + n]
                kind = "copy"
                if n == 1:
                    sp = took[0][1] if took[0] != "F" else None
                    msp = maxes[0][1] if maxes and maxes[0] != "F" else None
                    if mk == "mask" and sp is not None and msp is not None \
                            and sp != msp and msp != ONE:
                        self.I.emit("mask-mismatch", node, space=sp,
                                    mask=msp, st=st)
                    base = sp if sp is not None else msp
                    if mk == "ixmask" and sp is None:
                        base = None
                    ns = ("flt", base, (key, pol)) if base is not None \
                        else None
                    if fancy_at is not None and mk == "ixmask":
                        pass  # np.where on several axes: one result axis
                    else:
                        out.append(R(ns))
                    fancy_at = len(out) - 1 if fancy_at is None else \
                        fancy_at
                    ks = self.mask_consts(c, st) if mk == "mask" else None
                    if took[0] == "F":
                        out[-1] = R(None)
                    if took[0] == "F" and ks is not None and \
                            nf is not None and b.rest is None and \
                            len(ks) == len(nf):
                        sel = tuple(f for f, k in zip(nf, ks) if k)
                        out[-1] = "F" if sel else R(("fix", 0))
                    elif ks is not None and sp == ("fix", len(ks)):
                        out[-1] = R(("fix", sum(ks)))
                    else:
                        spec["part"] = (key, pol)
                else:
                    out.append(R(None))
                    spec["part"] = (key, pol)
                i += n
                continue
            if i >= len(axes):
                return None
            ax = axes[i]
            co = c.single()
            ch = self.heap(co, st)
            if c.is_const() and c.const() == "fullslice":
                out.append(ax)
                i += 1
                continue
            if isinstance(ch, Seq) and ch.typ == "slice":
                try:
                    k = slice(*[x.const() for x in ch.prefix])
                except LookupError:
                    k = None
                if ax == "F":
                    if k is not None and nf is not None:
                        try:
                            ns = nf[k]
                        except TypeError:
                            ns = nf
                        if tuple(ns) != tuple(nf) or (
                            b.rest is not None and k.stop is not None
                        ):
                            sel = tuple(ns)
                        elif b.rest is None and k.step is not None and \
                                tuple(ns) != tuple(nf):
                            sel = tuple(ns)
                        if b.rest is not None and sel is not None and \
                                k.stop is None and o.sel is None:
                            sel = tuple(ns) + ("rest",)
                    out.append("F")
                else:
                    out.append(R(self.slice_space(ax[1], k, ch)))
                i += 1
                continue
            if isinstance(co, Arr) and co.axes or isinstance(ch, Seq):
                # fancy integer index
                kind = "copy"
                if ax == "F" and nf is not None:
                    d = self.desc(c, st, node)
                    ks = None
                    if d.fields is not None and all(
                        x.is_const() and isinstance(x.const(), int)
                        for x in d.fields
                    ):
                        try:
                            ks = tuple(nf[x.const()] for x in d.fields)
                        except IndexError:
                            return None
                    if ks is not None:
                        sel = ks
                        out.append("F")
                    else:
                        out.append(R(None))
                else:
                    sp = ax[1] if ax != "F" else None
                    prov = None
                    isp = None
                    if isinstance(co, Arr):
                        pb = st.heap.get(co.buf)
                        prov = pb.prov if pb is not None else None
                        isp = co.axes[0][1] if co.axes[0] != "F" else None
                        if pb is not None and sp is not None:
                            e = self.arr_join(co, st)
                            if "ix" in e.f:
                                self.I.emit("index", node, space=sp,
                                            ix=e.f["ix"], st=st)
                    if prov and prov[0] == "perm":
                        ns = ("perm", sp, prov[1]) if sp else None
                    elif sp is not None:
                        ns = ("take", sp, co.buf.key if isinstance(
                            co, Arr) else co.key)
                    else:
                        ns = None
                    nax = [R(ns)]
                    if isinstance(co, Arr) and len(co.axes) > 1:
                        nax = [R(None)] * len(co.axes)
                    if fancy_at is None:
                        fancy_at = len(out)
                        out.extend(nax)
                i += 1
                continue
            # integer
            if c.is_const() and isinstance(c.const(), (int,)) and not \
                    isinstance(c.const(), bool):
                if ax == "F":
                    if nf is not None:
                        k = c.const()
                        if b.rest is not None and o.sel is None and (
                            k >= len(nf) or k < 0
                        ):
                            sel = ("rest",)
                        else:
                            try:
                                sel = (nf[k],)
                            except IndexError:
                                return None
                i += 1
                continue
            if isinstance(co, Arr) or not c.objs:
                if ax != "F":
                    if "ix" in c.f and ax[1] is not None:
                        self.I.emit("index", node, space=ax[1],
                                    ix=c.f["ix"], st=st)
                ks = c.prims | {D.kind_of_const(k.v) for k in c.consts}
                if ks and ks <= {"str"}:
                    return None
                i += 1
                continue
            # unknown object as index
            kind = "copy"
            out.append(R(None))
            i += 1
        out.extend(axes[i:])
        return kind, tuple(out), sel, spec

    def slice_space(self, sp, k, ch):
        if sp is None:
            return None
        if k is not None:
            if (k.start, k.stop, k.step) == (None, None, None):
                return sp
            if isinstance(sp, tuple) and sp[0] == "fix" and \
                    k.step in (None, 1):
                try:
                    return ("fix", len(range(sp[1])[k]))
                except TypeError:
                    return None
            if (k.start, k.stop, k.step) == (None, None, -1):
                if isinstance(sp, tuple) and sp[0] == "flip":
                    return sp[1]
                return ("flip", sp)
            return ("slice", sp, (k.start, k.stop, k.step))
        # a slice up to a symbolic length of another space
        lo, hi, stp = ch.prefix
        if "dim" in hi.f and lo.is_const() and lo.const() is None:
            return ("slice", sp, ("dim", hi.f["dim"]))
        return ("slice", sp, "?")

    def arr_setitem(self, o, idx, val, st, node, many=False):
        self.I.emit("write", node, loc=o.buf, what="[...]", field=None,
                    value=val, st=st, old=st.heap.get(o.buf))
        self.I.may_raise(st)
        comps = self.norm_index(idx, st)
        b = st.edit(o.buf) if o.buf in st.heap else None
        if b is None:
            return
        vd = self.desc(val, st, node)
        if comps is None:
            self._weak_all(b, vd.all())
            return
        r = self.select(o, comps, st, node)
        if r is None:
            self.raise_alt("IndexError", st)
            return
        kind, axes, sel, spec = r
        # alignment of the assigned value
        if vd.rank and axes:
            self.broadcast([axes, vd.axes], st, node)
        full = not many and not b.multi and self.covers_all(
            o, comps, st)
        part = spec.get("part")
        ilab = self.I.deep_labels(idx, st, 2) | st.pc
        v = vd.all().withlab(vd.lab | ilab)
        fv = None
        if "F" in axes and vd.fields is not None and "F" in vd.axes:
            fv = vd.fields
        if b.fields is not None:
            fs = list(b.fields)
            tgt = sel if sel is not None else tuple(range(len(fs)))
            for n, i in enumerate(tgt):
                if i == "rest":
                    if b.rest is not None:
                        b.rest = join(b.rest, v)
                    continue
                x = fv[n].withlab(vd.lab | ilab) if (
                    fv is not None and n < len(fv)) else v
                fs[i] = x if full else join(fs[i], x)
            b.fields = tuple(fs)
            return
        if full:
            b.elem = v
            b.parts = None
            return
        if part is not None and kind == "copy" and not many and not b.multi:
            if b.parts is None:
                if b.elem is not None and b.elem.bottom():
                    pass
                b.parts = (part, v)
                return
            if b.parts[0] == part:
                b.parts = (part, v)
                return
            if b.parts[0][0] == part[0]:
                b.elem = join(v, b.parts[1])
                b.parts = None
                return
            b.elem = joinall([b.elem or BOT, b.parts[1]])
            b.parts = (part, v)
            return
        self._weak_all(b, v)

    def _weak_all(self, b, v):
        if b.fields is not None:
            b.fields = tuple(join(x, v) for x in b.fields)
            if b.rest is not None:
                b.rest = join(b.rest, v)
        else:
            b.elem = join(b.elem or BOT, v)

    def covers_all(self, o, comps, st):
        for c in comps:
            co = c.single()
            ch = self.heap(co, st)
            if isinstance(ch, Seq) and ch.typ == "slice":
                try:
                    k = [x.const() for x in ch.prefix]
                except LookupError:
                    return False
                if k[0] in (None, 0) and k[1] is None and k[2] in (None, 1):
                    continue
                # slices of the field axis are exact
                i = comps.index(c)
                if i < len(o.axes) and o.axes[i] == "F":
                    continue
                return False
            if c.is_const() and c.const() in ("...", "fullslice"):
                continue
            i = comps.index(c)
            if i < len(o.axes) and o.axes[i] == "F" and c.is_const():
                continue
            return False
        return True

    def arr_inplace(self, op, o, a, rhs, st, node, many):
        b0 = st.heap.get(o.buf)
        self.I.emit("write", node, loc=o.buf,
                    what="in-place " + type(op).__name__, field=None,
                    value=rhs, st=st, old=b0)
        if b0 is None:
            return
        self.I.may_raise(st)
        res = self.elementwise(
            lambda p, q: self.np_binop(op, p, q, st, node), [a, rhs],
            st, node)
        rd = self.desc(res, st, node)
        b = st.edit(o.buf)
        strong = not many and not b.multi
        if b.fields is not None:
            fs = list(b.fields)
            tgt = o.sel if o.sel is not None else tuple(range(len(fs)))
            for n, i in enumerate(tgt):
                x = rd.fields[n] if (rd.fields is not None and n < len(
                    rd.fields)) else rd.all()
                if i == "rest":
                    b.rest = join(b.rest or BOT, x)
                    continue
                # a view on a part of the rows only updates those
                fs[i] = x if strong else join(fs[i], x)
            b.fields = tuple(fs)
            if o.sel is None and b.rest is not None:
                b.rest = join(b.rest, rd.rest or rd.all())
        else:
            x = rd.all()
            b.elem = x if strong else join(b.elem or BOT, x)
            b.parts = None
        # the scratch result is not part of the heap's meaning
        for x in res.objs:
            if isinstance(x, Arr) and x.buf != o.buf:
                st.heap.pop(x.buf, None) if x.buf not in [
                    y.buf for y in rhs.objs if isinstance(y, Arr)] else None

    # ------------------------------------------------------ masks
    def cmp_mask(self, op, x, y, r, st):
        for o in r.objs:
            if isinstance(o, Arr) and o.buf in st.heap:
                b = st.edit(o.buf)
                b.prov = ("mask", o.buf.key, True)
        t = type(op)
        z = None
        for p, q in ((x, y), (y, x)):
            e = self.desc(p, st).all()
            zz = e.f.get("z")
            if not zz:
                continue
            small = q.is_const() and isinstance(
                q.const(), (int, float)) and 0 <= q.const() <= 1e-3
            if t is ast.Eq and small:
                z = ("eqzero", zz)
            elif t in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                left = p is x
                less = (t in (ast.Lt, ast.LtE)) == left
                if less and (small or "iv" in q.f):
                    z = ("eqzero", zz)
                elif not less and q.is_const() and q.const() == 0:
                    z = ("nonzero", zz)
            elif t is ast.NotEq and small:
                z = ("nonzero", zz)
        if z is not None:
            r = r.withf(**{z[0]: z[1]})
        return r

    def invert_mask(self, o, a, r, st):
        b0 = st.heap.get(o.buf)
        for x in r.objs:
            if isinstance(x, Arr) and x.buf in st.heap:
                b = st.edit(x.buf)
                b.dtype = "bool"
                if b0 is not None and b0.prov and b0.prov[0] == "mask":
                    b.prov = ("mask", b0.prov[1], not b0.prov[2])
                elif b0 is not None:
                    b.prov = ("mask", o.buf.key, False)
        if a.f.get("eqzero"):
            r = r.withf(nonzero=a.f["eqzero"])
        if a.f.get("nonzero"):
            r = r.withf(eqzero=a.f["nonzero"])
        return r

    # ------------------------------------------------------ attributes
    def arr_attr(self, o, name, st, node):
        me = obj(o)
        if name == "T":
            return obj(Arr(o.buf, tuple(reversed(o.axes)), o.sel))
        if name == "shape":
            return self.arr_shape(o, st, node)
        if name == "size":
            return self.arr_size(o, st)
        if name == "ndim":
            return const(len(o.axes))
        if name == "dtype":
            return self.arr_dtype(o, st)
        if name == "flat":
            return self.ravel(me, st, node, view=True)
        if name in ("real", "base"):
            return me
        return V(frozenset((ExtBound(me, name),)))

    def arr_size(self, o, st):
        n = 1
        f = {}
        for a in o.axes:
            if a == "F":
                b = st.heap.get(o.buf)
                if b is None or b.fields is None or (
                    o.sel is None and b.rest is not None
                ):
                    n = None
                    continue
                k = len(o.sel) if o.sel is not None else len(b.fields)
                n = n * k if n is not None else None
            elif a[1] == ONE:
                pass
            elif isinstance(a[1], tuple) and a[1][0] == "fix":
                n = n * a[1][1] if n is not None else None
            else:
                n = None
                if len(o.axes) == 1 and a[1] is not None:
                    f["dim"] = a[1]
        if n is not None:
            return const(n)
        ne = all(a == "F" or nonempty(a[1]) for a in o.axes)
        lo = 1 if ne else 0
        return V(E0, frozenset(("int",)), E0, E0,
                 dict(f, iv=(lo, float("inf"), False, True)))

    def axis_len(self, o, a, st):
        if a == "F":
            b = st.heap.get(o.buf)
            if b is not None and b.fields is not None and not (
                o.sel is None and b.rest is not None
            ):
                return const(len(o.sel) if o.sel is not None else len(
                    b.fields))
            return INT
        if a[1] == ONE:
            return const(1)
        if isinstance(a[1], tuple) and a[1][0] == "fix":
            return const(a[1][1])
        f = {"iv": (1 if nonempty(a[1]) else 0, float("inf"), False, True)}
        if a[1] is not None:
            f["dim"] = a[1]
        return V(E0, frozenset(("int",)), E0, E0, f)

    def arr_shape(self, o, st, node):
        return self.seq(st, node, "tuple",
                        [self.count(self.axis_len(o, a, st), obj(o), st)
                         for a in o.axes],
                        extra="shape")

    def arr_dtype(self, o, st):
        b = st.heap.get(o.buf)
        if b is None or b.dtype == "object":
            return UNK
        e = self.arr_join(o, st)
        if e.objs or e.prims & {"unk", "str", "none", "datetime"} or any(
            not isinstance(c.v, (int, float, bool)) for c in e.consts
        ):
            return UNK
        return obj(Ext("dtype.num"))

    # ------------------------------------------------------ reshaping
    def ravel(self, v, st, node, view=True):
        outs = []
        for a in self.alts(v):
            o = a.single()
            if not isinstance(o, Arr):
                outs.append(a)
                continue
            b = st.heap.get(o.buf)
            axes = list(o.axes)
            nf = None
            if b is not None and b.fields is not None:
                nf = len(o.sel) if o.sel is not None else (
                    len(b.fields) if b.rest is None else None)
            ax = [x for x in axes
                  if not (is_r(x) and x[1] == ONE)
                  and not (x == "F" and nf == 1)]
            if len(ax) == 0:
                if len(axes) == 0:
                    new = (R(ONE),)
                else:
                    new = (R(ONE),)
            elif len(ax) == 1:
                new = (ax[0],)
            elif all(is_r(x) for x in ax):
                sp = ax[-1][1]
                for x in reversed(ax[:-1]):
                    sp = ("prod", x[1], sp) if (
                        x[1] is not None and sp is not None) else None
                new = (R(sp),)
            else:
                new = (R(None),)
            if view:
                outs.append(V(frozenset((Arr(o.buf, new, o.sel),)),
                              lab=a.lab, f=a.f))
            else:
                d = self.desc_arr(Arr(o.buf, new, o.sel), st, a.lab)
                outs.append(self.from_desc(d, st, node, ("ravel",)))
        return joinall(outs, BOT)

    def reshape(self, v, shape, st, node):
        """shape: list of values or None when unknown"""
        outs = []
        if shape is not None and len(shape) == 1:
            h = self.heap(shape[0].single(), st)
            if isinstance(h, Seq):
                shape = list(h.prefix) if h.rest is None else None
        for a in self.alts(v):
            o = a.single()
            if not isinstance(o, Arr):
                outs.append(a)
                continue
            if shape is None:
                outs.append(obj(Arr(o.buf, (R(None),), o.sel), a.lab))
                continue
            if len(shape) == 1:
                outs.append(self.ravel(a, st, node))
                continue
            flat = self.ravel(a, st, node).single()
            b = st.heap.get(o.buf)
            ks = [s.const() if s.is_const() else None for s in shape]
            nf = None
            if "F" in o.axes and b is not None and b.fields is not None:
                nf = len(o.sel) if o.sel is not None else len(b.fields)
            axes = []
            usedF = False
            for s, k in zip(shape, ks):
                if k == 1:
                    axes.append(R(ONE))
                elif k == -1 and flat is not None and sum(
                    1 for q in ks if q != 1
                ) == 1:
                    axes.append(flat.axes[0])
                    usedF = flat.axes[0] == "F"
                elif nf is not None and k == nf and not usedF and (
                    len(o.axes) == len(shape) or len(o.axes) == 1
                ):
                    axes.append("F")
                    usedF = True
                elif "dim" in s.f:
                    axes.append(R(s.f["dim"]))
                else:
                    axes.append(R(None))
            if len(o.axes) == len(shape) and all(
                self.same_len(o, x, s, st) for x, s in zip(o.axes, shape)
            ):
                axes = list(o.axes)
            fs = flat.axes[0][1] if (
                flat is not None and len(flat.axes) == 1
                and flat.axes[0] != "F") else None
            if fs is not None and isinstance(fs, tuple) and fs[0] == "prod":
                got = [x[1] for x in axes if x != "F"]
                if None not in got and len(got) == 2 and got != list(
                    fs[1:]
                ):
                    self.I.emit("reshape-mismatch", node, flat=fs,
                                axes=tuple(got), st=st)
            outs.append(V(frozenset((Arr(o.buf, tuple(axes), o.sel),)),
                          lab=a.lab))
        return joinall(outs, BOT)

    def same_len(self, o, ax, s, st):
        n = self.axis_len(o, ax, st)
        if n.is_const() and s.is_const():
            return n.const() == s.const()
        return "dim" in n.f and n.f.get("dim") == s.f.get("dim")

    def flip(self, v, axis, st, node):
        outs = []
        for a in self.alts(v):
            o = a.single()
            if not isinstance(o, Arr):
                outs.append(a)
                continue
            ks = range(len(o.axes)) if axis is None else [axis]
            axes = list(o.axes)
            sel = o.sel
            for k in ks:
                try:
                    x = axes[k]
                except (IndexError, TypeError):
                    continue
                if x == "F":
                    b = st.heap.get(o.buf)
                    if b is not None and b.fields is not None and \
                            b.rest is None:
                        s = sel if sel is not None else tuple(
                            range(len(b.fields)))
                        sel = tuple(reversed(s))
                elif x[1] is not None:
                    sp = x[1]
                    axes[k] = R(sp[1] if isinstance(sp, tuple) and sp[0]
                                == "flip" else ("flip", sp))
            outs.append(V(frozenset((Arr(o.buf, tuple(axes), sel),)),
                          lab=a.lab))
        return joinall(outs, BOT)

    # ------------------------------------------------------ stacking
    def parts(self, seqv, st, node):
        """(list of element values, exact?) of a sequence argument"""
        e, pre, sp = self.elements(seqv, st, node)
        if pre is not None:
            return pre, True, sp
        return [e], False, sp

    def as2(self, v, st, node):
        return self.desc(v, st, node)

    def column_stack(self, seqv, st, node):
        ps, exact, _ = self.parts(seqv, st, node)
        if any("unk" in p.prims for p in ps) and not exact:
            return prim("unk", lab=self.labs(ps, st))
        lab = E0
        ds = []
        for p in ps:
            d = self.desc(p, st, node)
            lab = lab | d.lab | p.lab
            ds.append(d)
        spaces = []
        fields = []
        rest = None
        bad = False
        for d in ds:
            if d.rank <= 1:
                if d.rank == 1 and d.axes[0] == "F":
                    spaces.append(None)
                elif d.rank == 1:
                    spaces.append(d.axes[0][1])
                else:
                    spaces.append(ONE)
                if rest is None:
                    fields.append(d.all())
                else:
                    rest = join(rest, d.all())
            elif d.rank == 2:
                a0, a1 = d.axes
                if a0 == "F":
                    # rows are the tracked fields; columns unknown
                    bad = True
                    continue
                spaces.append(a0[1])
                if a1 == "F" and d.fields is not None:
                    if rest is None:
                        fields.extend(d.fields)
                    else:
                        rest = joinall([rest] + list(d.fields))
                    if d.rest is not None:
                        rest = join(rest or BOT, d.rest)
                elif is_r(a1) and a1[1] == ONE:
                    if rest is None:
                        fields.append(d.all())
                    else:
                        rest = join(rest, d.all())
                else:
                    rest = d.all() if rest is None else join(rest, d.all())
            else:
                bad = True
        sp = self.merge_spaces(spaces, st, node) if spaces else None
        if sp == ONE:
            sp = None
        if bad or not exact:
            return self.arr(st, node, (R(sp), R(None)), None,
                            joinall([d.all() for d in ds]), None, None,
                            ("cs",), lab)
        return self.arr(st, node, (R(sp), "F"), fields, None, rest, None,
                        ("cs",), lab)

    def row_stack(self, seqv, st, node):
        ps, exact, sp = self.parts(seqv, st, node)
        ds = [self.desc(p, st, node) for p in ps]
        lab = frozenset().union(*[d.lab for d in ds]) if ds else E0
        if not ds:
            return self.arr(st, node, (R(None), R(None)), None, BOT)
        if exact and all(d.rank <= 1 for d in ds):
            d = self.desc_seq(Seq("list", ps), st, node, 0)
            if d.rank == 1:
                d = Desc((R(None),) + d.axes, d.fields, d.rest, d.elem,
                         d.lab)
            return self.from_desc(d, st, node, ("rs",))
        if all(d.rank <= 1 for d in ds):
            j = self.join_desc(ds)
            ax = j.axes if j.rank else (R(ONE),)
            return self.from_desc(
                Desc((R(sp),) + tuple(ax), j.fields, j.rest, j.elem, j.lab),
                st, node, ("rs",))
        return self.concat([self._row2(d) for d in ds], 0, exact, st, node,
                           lab)

    def _row2(self, d):
        if d.rank == 1:
            return Desc((R(ONE),) + d.axes, d.fields, d.rest, d.elem, d.lab)
        if d.rank == 0:
            return Desc((R(ONE), R(ONE)), None, None, d.all(), d.lab)
        return d

    def concat(self, ds, axis, exact, st, node, lab=E0):
        if not ds:
            return self.arr(st, node, (R(None),), None, BOT)
        n = max(d.rank for d in ds)
        for d in ds:
            lab = lab | d.lab
        if any(d.rank != n for d in ds) or n == 0:
            return self.arr(st, node, (R(None),) * max(n, 1), None,
                            joinall([d.all() for d in ds]), None, None,
                            ("cat",), lab)
        if axis is None:
            axis = 0
        if axis < 0:
            axis += n
        axes = []
        F = None
        for i in range(n):
            xs = [d.axes[i] for d in ds]
            if i == axis:
                if all(x == "F" for x in xs) and exact and all(
                    d.fields is not None and d.rest is None for d in ds
                ):
                    axes.append("F")
                    F = "cat"
                elif exact and len(xs) > 1 and all(
                    is_r(x) and x[1] is not None for x in xs
                ):
                    axes.append(R(("cat",) + tuple(x[1] for x in xs)))
                else:
                    axes.append(R(None))
            else:
                if all(x == "F" for x in xs):
                    axes.append("F")
                    F = F or "join"
                elif any(x == "F" for x in xs):
                    # one operand has individually tracked fields
                    k = {len(d.fields) for d in ds if d.fields is not None}
                    axes.append("F" if len(k) == 1 else R(None))
                    F = F or ("join" if len(k) == 1 else None)
                else:
                    axes.append(R(self.merge_spaces(
                        [x[1] for x in xs], st, node)))
        if "F" not in axes:
            return self.arr(st, node, axes, None,
                            joinall([d.all() for d in ds]), None, None,
                            ("cat",), lab)
        if F == "cat":
            fs = []
            for d in ds:
                fs.extend(d.fields)
            return self.arr(st, node, axes, fs, None, None, None, ("cat",),
                            lab)
        k = max(len(d.fields) for d in ds if d.fields is not None)
        fs = []
        for i in range(k):
            fs.append(joinall([
                d.fields[i] if (d.fields is not None and i < len(d.fields)
                                and "F" in d.axes) else d.all()
                for d in ds]))
        rs = [d.rest for d in ds if d.rest is not None]
        return self.arr(st, node, axes, fs, None,
                        joinall(rs) if rs else None, None, ("cat",), lab)

    # ------------------------------------------------------ reductions
    def reduce(self, v, axis, fn, st, node, keepdims=False):
        """fn: joined element -> result element"""
        outs = []
        for i, a in enumerate(self.alts(v)):
            o = a.single()
            h = self.heap(o, st) if o is not None else None
            if o is None:
                outs.append(fn(a))
                continue
            if not isinstance(o, Arr) and not isinstance(h, Seq):
                outs.append(prim("unk", lab=self.I.deep_labels(a, st)))
                continue
            d = self.desc1(a, st, node, 0)
            if axis is None or d.rank <= 1:
                outs.append(fn(d.all().withlab(d.lab)))
                continue
            try:
                axes = list(d.axes)
                gone = axes.pop(axis)
            except (IndexError, TypeError):
                outs.append(fn(d.all().withlab(d.lab)))
                continue
            if "F" in axes and d.fields is not None:
                nd = Desc(axes, [fn(x) for x in d.fields],
                          fn(d.rest) if d.rest is not None else None, None,
                          d.lab)
            else:
                nd = Desc([R(None) if x == "F" else x for x in axes], None,
                          None, fn(d.all()), d.lab)
            outs.append(self.from_desc(nd, st, node, ("red", i)))
        return joinall(outs, BOT)

    def truth_red(self, v, st, node, is_any):
        """np.any / np.all without axis"""
        outs = []
        for a in self.alts(v):
            o = a.single()
            f = {}
            if a.f.get("eqzero"):
                f["anyzero" if is_any else "allzero"] = a.f["eqzero"]
            if a.f.get("nonzero") and not is_any:
                f["nonezero"] = a.f["nonzero"]
            if a.f.get("anyzero"):
                f["anyzero"] = a.f["anyzero"]
            if a.f.get("nonezero"):
                f["nonezero"] = a.f["nonezero"]
            h = self.heap(o, st) if o is not None else None
            if o is None or not (isinstance(o, Arr) or isinstance(h, Seq)):
                tr = self.I.truth(a, st)
                lab = a.lab
                vals = tr
            else:
                d = self.desc1(a, st, node, 0)
                lab = d.lab | d.all().lab
                fs = list(d.fields) if d.fields is not None else None
                if d.elem is not None and not d.elem.bottom() or fs is None:
                    fs = None
                ne = all(x == "F" or nonempty(x[1]) for x in d.axes)
                if fs is None or d.rest is not None:
                    e = d.all()
                    tr = self.I.truth(e, st) if not e.bottom() else {False}
                    if is_any:
                        vals = set()
                        if True in tr:
                            vals.add(True)
                            if False in tr or not ne:
                                vals.add(False)
                        else:
                            vals.add(False)
                    else:
                        vals = set()
                        if False in tr:
                            vals.add(False)
                            if True in tr or not ne:
                                vals.add(True)
                        else:
                            vals.add(True)
                else:
                    ts = [self.I.truth(x, st) for x in fs]
                    if is_any:
                        if ne and any(t == {True} for t in ts):
                            vals = {True}
                        elif all(t == {False} for t in ts):
                            vals = {False}
                        else:
                            vals = {True, False}
                    else:
                        if all(t == {True} for t in ts):
                            vals = {True}
                        elif ne and any(t == {False} for t in ts):
                            vals = {False}
                        else:
                            vals = {True, False}
            if len(vals) == 1:
                outs.append(V(E0, E0, frozenset((Const(
                    next(iter(vals))),)), lab, f))
            else:
                outs.append(V(E0, frozenset(("bool",)), E0, lab, f))
        return joinall(outs, BOT)
