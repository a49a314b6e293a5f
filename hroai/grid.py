"""Small arrays of a known shape whose entries are tracked one by one.

Used by the clients that follow single values through the code (`grids` of
the interpreter is set).  An array of rank two or more has axes ("N", k); its
cells are the fields of the buffer, `sel` lists the flat indices of a view.
Everything that is not known exactly falls back to the general array model.
"""
import ast
import bisect
import itertools

from . import domain as D, poly
from .domain import (
    BOT, E0, NONE, UNK, Arr, Buf, Const, Ext, Inst, Loc, Opaque, Seq, V,
    const, join, joinall, obj, prim,
)

MAXCELLS = 1024


class Inexact(Exception):
    """not every index or entry is known"""


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def strides(shape):
    out = []
    k = prod(shape)
    for n in shape:
        k = k // n if n else 0
        out.append(k)
    return out


def at(shape, cells, ix):
    return cells[sum(i * s for i, s in zip(ix, strides(shape)))]


def indices(shape):
    return itertools.product(*[range(n) for n in shape])


def bshape(*shapes):
    """numpy's broadcasting"""
    r = max(map(len, shapes))
    out = []
    for k in range(r):
        ns = {s[k - (r - len(s))] for s in shapes if k >= r - len(s)} - {1}
        if len(ns) > 1:
            raise ValueError("shapes do not match")
        out.append(ns.pop() if ns else 1)
    return tuple(out)


def bcast(shape, cells, to):
    off = len(to) - len(shape)
    return [at(shape, cells, [i if n != 1 else 0
                              for i, n in zip(ix[off:], shape)])
            for ix in indices(to)]


def take_index(shape, flat, comps):
    """(shape, flat indices, view?) of an exactly known index"""
    cs = []
    for c in comps:
        if isinstance(c, tuple) and c[0] == "mask":
            sh, bits = c[1], c[2]
            hits = [ix for ix, b in zip(indices(sh), bits) if b]
            for k in range(len(sh)):
                cs.append(("ints", (len(hits),), [h[k] for h in hits], sh[k]))
        else:
            cs.append(c)
    used = sum(1 for c in cs if c is not None and c is not Ellipsis)
    if used > len(shape):
        raise IndexError
    if any(c is Ellipsis for c in cs):
        k = [i for i, c in enumerate(cs) if c is Ellipsis][0]
        cs[k:k + 1] = [slice(None)] * (len(shape) - used)
        if any(c is Ellipsis for c in cs):
            raise IndexError
    else:
        cs += [slice(None)] * (len(shape) - used)
    adv = [i for i, c in enumerate(cs) if isinstance(c, tuple)]
    if adv:
        adv = [i for i, c in enumerate(cs) if isinstance(c, (tuple, int))]
        bs = bshape(*[cs[i][1] if isinstance(cs[i], tuple) else ()
                      for i in adv])
        adjacent = adv == list(range(adv[0], adv[-1] + 1))
    dims = []  # (axis of the source or None, list of indices)
    axis = 0
    advlists = {}
    pos = None
    for i, c in enumerate(cs):
        if c is None:
            dims.append((None, [0]))
            continue
        n = shape[axis]
        if adv and i in adv:
            sh, xs = (c[1], c[2]) if isinstance(c, tuple) else ((), [c])
            if isinstance(c, tuple) and len(c) > 3 and c[3] != n:
                raise IndexError
            for x in xs:
                if not -n <= x < n:
                    raise IndexError
            advlists[axis] = [x % n for x in bcast(sh, xs, bs)]
            if pos is None:
                pos = len(dims)
        elif isinstance(c, slice):
            dims.append((axis, list(range(n))[c]))
        else:
            if not -n <= c < n:
                raise IndexError
            dims.append((axis, c % n))
        axis += 1
    if not adv:
        pos = 0
        bs = ()
    elif not adjacent:
        pos = 0
    keep = [d for d in dims if not isinstance(d[1], int)]
    fixed = {d[0]: d[1] for d in dims if isinstance(d[1], int)}
    pos = sum(1 for d in dims[:pos] if not isinstance(d[1], int))
    out_shape = tuple(len(d[1]) for d in keep[:pos]) + tuple(bs) + tuple(
        len(d[1]) for d in keep[pos:])
    out = []
    for ix in indices(out_shape):
        a, b, c = ix[:pos], ix[pos:pos + len(bs)], ix[pos + len(bs):]
        src = dict(fixed)
        for d, k in zip(keep, tuple(a) + tuple(c)):
            if d[0] is not None:
                src[d[0]] = d[1][k]
        k = 0
        for n, s in zip(b, strides(bs)):
            k += n * s
        for ax, xs in advlists.items():
            src[ax] = xs[k]
        out.append(at(shape, flat, [src[j] for j in range(len(shape))]))
    return out_shape, out, not adv


# functions of two arrays that are computed place by place
PAIRWISE = {"maximum", "minimum", "fmax", "fmin", "hypot", "arctan2", "fmod"}


class Grids:
    def on(self):
        return self.I.grids

    @staticmethod
    def isgrid(o):
        return isinstance(o, Arr) and len(o.axes) > 1 and all(
            a != "F" and a[0] == "N" for a in o.axes)

    # ------------------------------------------------------ contents
    def cells(self, v, st, seqs=True, depth=0):
        """(shape, cells) of an exactly known array-like, None if unknown"""
        alts = list(self.alts(v))
        if len(alts) != 1:
            if alts and all(a.single() is None for a in alts) and \
                    not v.may_unknown():
                return (), [v]
            return None
        a = alts[0]
        o = a.single()
        if o is None:
            return None if a.may_unknown() or a.bottom() else ((), [a])
        if isinstance(o, Arr):
            return self.arr_cells(o, a.lab, st)
        h = self.heap(o, st)
        if isinstance(h, Seq) and h.typ in ("list", "tuple") and seqs:
            if h.rest is not None or depth > 3:
                return None
            subs = [self.cells(x, st, True, depth + 1) for x in h.prefix]
            if any(s is None for s in subs):
                return None
            if not subs:
                return (0,), []
            if len({s[0] for s in subs}) != 1:
                return None
            return (len(subs),) + subs[0][0], [
                c.withlab(a.lab) for s in subs for c in s[1]]
        if isinstance(h, Inst) and isinstance(h.tag, tuple) and h.tag[
                :1] == ("nt",):
            subs = [self.cells(h.fields[n], st, True, depth + 1)
                    for n in h.tag[1]]
            if any(s is None or s[0] for s in subs):
                return None
            return (len(subs),), [s[1][0] for s in subs]
        return None

    def arr_cells(self, o, lab, st):
        b = st.heap.get(o.buf)
        if b is None or b.parts is not None:
            return None
        if not o.axes:
            return (), [self.arr_join(o, st).withlab(lab)]
        if b.fields is None:
            if len(o.axes) == 1 and o.axes[0] == ("R", ("fix", 0)):
                return (0,), []
            return None
        if self.isgrid(o):
            shape = tuple(a[1] for a in o.axes)
        elif o.axes == ("F",):
            if o.sel is None and b.rest is not None:
                return None
            shape = (len(o.sel) if o.sel is not None else len(b.fields),)
        elif o.axes == (("R", ("fix", 0)),):
            return (0,), []
        else:
            return None
        ix = o.sel if o.sel is not None else range(len(b.fields))
        if len(ix) != prod(shape) or any(
                not isinstance(i, int) or i >= len(b.fields) for i in ix):
            return None
        el = b.elem
        return shape, [
            (join(b.fields[i], el) if el is not None else b.fields[i])
            .withlab(lab) for i in ix]

    def need(self, v, st):
        r = self.cells(v, st) if v is not None else None
        if r is None or len(r[1]) > MAXCELLS:
            raise Inexact
        return r

    def consts(self, vs):
        if not all(v.is_const() for v in vs):
            raise Inexact
        return [v.const() for v in vs]

    def mk(self, shape, cells, st, node, extra=None, dtype=None, lab=E0):
        cells = list(cells)
        if not shape:
            return cells[0].withlab(lab)
        if len(cells) > MAXCELLS:
            raise Inexact
        ex = ("grid", extra)
        if 0 in shape:
            return self.arr(st, node, tuple(
                ("R", ("fix", n)) for n in shape), None, BOT, None, dtype,
                ex, lab)
        if len(shape) == 1:
            return self.arr(st, node, ("F",), cells, None, None, dtype, ex,
                            lab)
        return self.arr(st, node, tuple(("N", n) for n in shape), cells,
                        None, None, dtype, ex, lab)

    def axes_of(self, shape):
        if 0 in shape:
            return tuple(("R", ("fix", n)) for n in shape)
        if len(shape) == 1:
            return ("F",)
        return tuple(("N", n) for n in shape)

    def flat_ix(self, o, st):
        b = st.heap[o.buf]
        return list(o.sel) if o.sel is not None else list(
            range(len(b.fields or ())))

    def demote(self, v, st, node, k=0):
        """the same contents in the general model"""
        if not any(self.isgrid(o) for o in v.objs):
            return v
        outs = []
        for i, a in enumerate(self.alts(v)):
            o = a.single()
            if self.isgrid(o):
                d = self.desc_arr(o, st, a.lab)
                outs.append(self.from_desc(d, st, node, ("demote", k, i)))
            else:
                outs.append(a)
        return joinall(outs)

    def desc_arr(self, o, st, lab=E0):
        if self.isgrid(o):
            from .nparr import Desc
            r = self.arr_cells(o, lab, st)
            shape = tuple(a[1] for a in o.axes)
            if r is None:
                b = st.heap.get(o.buf)
                return Desc([("R", ("fix", n)) for n in shape], None, None,
                            b.all() if b is not None else UNK, lab)
            shape, cells = r
            m = shape[-1]
            cols = [joinall(cells[j::m]) for j in range(m)]
            ax = [("R", ("fix", n) if n != 1 else "1") for n in shape[:-1]]
            return Desc(ax + ["F"], cols, None, None, lab)
        return super().desc_arr(o, st, lab)

    def axis_len(self, o, a, st):
        if a != "F" and a[0] == "N":
            return const(a[1])
        return super().axis_len(o, a, st)

    def arr_size(self, o, st):
        if self.isgrid(o):
            return const(prod(a[1] for a in o.axes))
        return super().arr_size(o, st)

    # ------------------------------------------------------ indexing
    def pyindex(self, idx, st, shape):
        comps = self.norm_index(idx, st)
        if comps is None:
            raise Inexact
        out = []
        for c in comps:
            o = c.single()
            h = self.heap(o, st) if o is not None else None
            if c.is_const():
                k = c.const()
                if k == "fullslice":
                    k = slice(None)
                elif k == "...":
                    k = Ellipsis
                elif k is not None and (
                        not isinstance(k, int) or isinstance(k, bool)):
                    raise Inexact
                out.append(k)
            elif isinstance(h, Seq) and h.typ == "slice":
                out.append(slice(*self.consts(h.prefix)))
            else:
                r = self.cells(c, st)
                if r is None:
                    raise Inexact
                ks = self.consts(r[1])
                if ks and all(isinstance(k, bool) for k in ks):
                    out.append(("mask", r[0], ks))
                elif all(isinstance(k, int) and not isinstance(k, bool)
                         for k in ks):
                    if r[0] == ():
                        out.append(ks[0])
                    else:
                        out.append(("ints", r[0], ks))
                else:
                    raise Inexact
        return out

    def arr_getitem(self, o, idx, st, node):
        if self.on() and o.axes:
            r = self.arr_cells(o, E0, st)
            if r is not None:
                shape, cells = r
                try:
                    py = self.pyindex(idx, st, shape)
                    flat = list(range(len(cells)))
                    sh, ix, view = take_index(shape, flat, py)
                except Inexact:
                    pass
                except (IndexError, ValueError):
                    self.raise_alt("IndexError", st)
                    return None
                else:
                    lab = self.I.deep_labels(idx, st, 3)
                    if not sh:
                        return cells[ix[0]].withlab(lab)
                    if view and ix:
                        src = self.flat_ix(o, st)
                        return obj(Arr(o.buf, self.axes_of(sh),
                                       tuple(src[i] for i in ix)), lab)
                    return self.mk(sh, [cells[i] for i in ix], st, node,
                                   "ix", lab=lab)
            if r is None and self.empty_axis(o, idx, st):
                self.raise_alt("IndexError", st)
                return None
            m = self.cell_mask(idx, r[0], st) if r is not None else None
            if self.isgrid(o):
                o = self.demote(obj(o), st, node, "ix").single()
            v = super().arr_getitem(o, idx, st, node)
            if m is not None:
                self.select_cells(v, m, r[1], st)
            return v
        return super().arr_getitem(o, idx, st, node)

    def empty_axis(self, o, idx, st):
        """whether an entry of an axis without entries is asked for"""
        for ax, c in zip(o.axes, self.norm_index(idx, st) or ()):
            ks = [k.v for k in c.consts]
            if not ks or c.objs or c.prims or any(
                    isinstance(k, bool) or not isinstance(k, int)
                    for k in ks):
                return False
            if ax in (("R", ("fix", 0)), ("N", 0)):
                return True
        return False

    # values taken where a mask holds that is not known everywhere: the
    # result is an array of unknown size, the values are kept besides
    def cell_mask(self, idx, shape, st):
        m = self.cells(idx, st, seqs=False)
        if m is None or tuple(m[0]) != tuple(shape) or not all(
                c.prims <= {"bool"} and not c.objs and all(
                    isinstance(k.v, bool) for k in c.consts) for c in m[1]):
            return None
        return tuple(m[1])

    def select_cells(self, v, m, cells, st):
        o = v.single() if v is not None else None
        b = st.heap.get(o.buf) if isinstance(o, Arr) else None
        if b is not None and not b.multi and all(
                c.is_const() or "poly" in c.f for c in m):
            st.edit(o.buf).prov = ("selected", m, tuple(cells))

    def selected(self, v, st):
        o = v.single()
        b = st.heap.get(o.buf) if isinstance(o, Arr) else None
        if b is not None and b.prov and b.prov[0] == "selected":
            return b.prov
        return None

    def arr_setitem(self, o, idx, val, st, node, many=False):
        if self.on() and o.axes:
            r = self.arr_cells(o, E0, st)
            if r is not None:
                try:
                    self.grid_set(o, r, idx, val, st, node, many)
                    return
                except Inexact:
                    pass
                except (IndexError, ValueError) as e:
                    self.raise_alt(type(e).__name__, st)
                    return
            if self.isgrid(o):
                self.I.emit("write", node, loc=o.buf, what="[...]",
                            field=None, value=val, st=st,
                            old=st.heap.get(o.buf))
                self.I.may_raise(st)
                if o.buf in st.heap:
                    v = self.desc(val, st, node).all().withlab(
                        self.I.deep_labels(idx, st, 2) | st.pc)
                    b = st.edit(o.buf)
                    if b.fields is not None:
                        fs = list(b.fields)
                        for i in o.sel if o.sel is not None else range(
                                len(fs)):
                            fs[i] = join(fs[i], v)
                        b.fields = tuple(fs)
                    else:
                        b.elem = join(b.elem or BOT, v)
                return
        super().arr_setitem(o, idx, val, st, node, many)
        self.unselect(o, st)

    def unselect(self, o, st):
        if self.selected(obj(o), st):
            st.edit(o.buf).prov = None

    def grid_set(self, o, r, idx, val, st, node, many):
        shape, cells = r
        src = self.flat_ix(o, st)
        try:
            py = self.pyindex(idx, st, shape)
        except Inexact:
            self.masked_set(o, shape, src, idx, val, st, node, many)
            return
        sh, ix, _ = take_index(shape, src, py)
        lab = self.I.deep_labels(idx, st, 2) | st.pc
        w = self.cells(val, st)
        if w is not None:
            wsh, wc = w
            while len(wsh) > len(sh) and wsh[0] == 1:
                wsh = wsh[1:]
            if len(wsh) > len(sh) or bshape(wsh, sh) != tuple(sh):
                raise ValueError
            new = bcast(wsh, wc, sh)
        else:
            d = self.desc(val, st, node)
            new = [d.all().withlab(d.lab)] * len(ix)
        self.I.emit("write", node, loc=o.buf, what="[...]", field=None,
                    value=val, st=st, old=st.heap.get(o.buf))
        self.I.may_raise(st)
        b = st.edit(o.buf)
        fs = list(b.fields)
        strong = not many and not b.multi
        for i, x in zip(ix, new):
            x = x.withlab(lab)
            fs[i] = x if strong else join(fs[i], x)
        b.fields = tuple(fs)
        b.prov = None

    def masked_set(self, o, shape, src, idx, val, st, node, many):
        """a single value is assigned where a mask holds that is not known
        everywhere"""
        m = self.cell_mask(idx, shape, st)
        if m is None:
            raise Inexact
        vals = [val] * len(m)
        if val.objs:
            sel = self.selected(val, st)
            if sel is None or sel[1] != m:
                raise Inexact
            vals = sel[2]
        self.I.emit("write", node, loc=o.buf, what="[...]", field=None,
                    value=val, st=st, old=st.heap.get(o.buf))
        self.I.may_raise(st)
        b = st.edit(o.buf)
        fs = list(b.fields)
        strong = not many and not b.multi
        for i, c, x in zip(src, m, vals):
            if c.is_const() and not c.const():
                continue
            x = x.withlab(c.lab | st.pc)
            fs[i] = x if strong and c.is_const() else self.choice(
                c, x, fs[i], st) if strong else join(fs[i], x)
        b.fields = tuple(fs)
        b.prov = None

    def arr_inplace(self, op, o, a, rhs, st, node, many):
        r = self.arr_cells(o, a.lab, st) if self.on() and o.axes else None
        if r is not None:
            w = self.elementwise(
                lambda p, q: self.np_binop(op, p, q, st, node),
                [a, rhs], st, node)
            c = self.cells(w, st)
            if c is not None and c[0] == r[0]:
                self.I.emit("write", node, loc=o.buf,
                            what="in-place " + type(op).__name__, field=None,
                            value=rhs, st=st, old=st.heap.get(o.buf))
                src = self.flat_ix(o, st)
                b = st.edit(o.buf)
                fs = list(b.fields)
                for i, x in zip(src, c[1]):
                    fs[i] = join(fs[i], x) if many or b.multi else x
                b.fields = tuple(fs)
                return
        if self.isgrid(o):
            self.arr_setitem(o, const("..."), self.elementwise(
                lambda p, q: self.np_binop(op, p, q, st, node),
                [a, rhs], st, node), st, node, True)
            return
        sel = self.selected(a, st) if not many else None
        other = self.selected(rhs, st)
        super().arr_inplace(op, o, a, rhs, st, node, many)
        self.unselect(o, st)
        if sel and (rhs.single() is None or other and other[1] == sel[1]):
            out = [BOT if c.is_const() and not c.const() else self._scal(
                lambda p, q: self.np_binop(op, p, q, st, node), [x, y])
                for c, x, y in zip(sel[1], sel[2], other[2] if other else
                                   [rhs] * len(sel[1]))]
            self.select_cells(a, sel[1], out, st)

    def arr_iter(self, o, lab, st, node):
        if self.isgrid(o):
            r = self.arr_cells(o, E0, st)
            if r is not None:
                shape = r[0]
                ix = self.flat_ix(o, st)
                k = prod(shape[1:])
                return [("arr", [obj(Arr(o.buf, self.axes_of(shape[1:]),
                                         tuple(ix[i * k:(i + 1) * k])), lab)
                                 for i in range(shape[0])], None, None)]
            o = self.demote(obj(o), st, node, "it").single()
        return super().arr_iter(o, lab, st, node)

    # ------------------------------------------------------ element-wise
    def _ew(self, fn, vals, st, node, extra, dtype):
        if self.on():
            cs = [self.cells(a, st) for a in vals]
            arrays = any(
                isinstance(a.single(), Arr) or isinstance(
                    self.heap(a.single(), st) if a.single() is not None
                    else None, Seq) for a in vals)
            if arrays and all(c is not None for c in cs) and any(
                    c[0] for c in cs):
                try:
                    sh = bshape(*[c[0] for c in cs])
                except ValueError:
                    self.raise_alt("ValueError", st)
                    return None
                if prod(sh) <= MAXCELLS:
                    bs = [bcast(c[0], c[1], sh) for c in cs]
                    out = [self._scal(fn, list(xs)) for xs in zip(*bs)]
                    if any(x is None or x.bottom() for x in out):
                        return None
                    lab = frozenset().union(*[a.lab for a in vals])
                    return self.mk(sh, out, st, node, extra, dtype, lab)
            sel = [self.selected(a, st) for a in vals]
            ms = [x[1] for x in sel if x]
            if ms and all(m == ms[0] for m in ms) and all(
                    x or a.single() is None for x, a in zip(sel, vals)):
                out = [BOT if c.is_const() and not c.const()
                       else self._scal(fn, list(xs))
                       for c, *xs in zip(ms[0], *[
                           x[2] if x else (a,) * len(ms[0])
                           for x, a in zip(sel, vals)])]
                v = super()._ew(fn, vals, st, node, extra, dtype)
                if all(x is not None for x in out):
                    self.select_cells(v, ms[0], out, st)
                return v
        return super()._ew(fn, vals, st, node, extra, dtype)

    # ------------------------------------------------------ attributes
    def arr_attr(self, o, name, st, node):
        if self.isgrid(o):
            r = self.arr_cells(o, E0, st)
            if r is not None:
                shape = r[0]
                ix = self.flat_ix(o, st)
                if name == "T":
                    rs = tuple(reversed(shape))
                    return obj(Arr(o.buf, self.axes_of(rs), tuple(
                        at(shape, ix, tuple(reversed(k)))
                        for k in indices(rs))))
                if name == "flat":
                    return obj(Arr(o.buf, ("F",), tuple(ix)))
            elif name in ("T", "flat"):
                return super().arr_attr(self.demote(
                    obj(o), st, node, "at").single(), name, st, node)
        return super().arr_attr(o, name, st, node)

    def arr_method(self, o, a, name, args, node, st):
        from .interp import Args
        if self.on() and self.arr_cells(o, a.lab, st) is not None:
            fn = {"max": "max", "min": "min"}.get(name, name)
            if name == "reshape":
                sh = args.pos[0] if len(args.pos) == 1 else self.seq(
                    st, node, "tuple", args.pos, extra="sh")
                args2 = Args([a, sh], args.kw)
            elif name == "transpose" and len(args.pos) > 1:
                args2 = Args([a, self.seq(st, node, "tuple", args.pos,
                                          extra="sh")])
            else:
                args2 = Args([a] + args.pos, args.kw)
            if name == "flatten":
                sh, cs = self.arr_cells(o, a.lab, st)
                return self.mk((len(cs),), cs, st, node, "flatten")
            if name == "tolist":
                return self.tolist(o, a, st, node)
            if name == "sort":
                try:
                    v = self.g_sort(args2, node, st)
                    self.arr_setitem(o, const("..."), v, st, node)
                    return NONE
                except Inexact:
                    pass
            if name == "fill":
                self.arr_setitem(o, const("..."), args.get(0, "value", UNK),
                                 st, node)
                return NONE
            g = getattr(self, "g_" + fn, None)
            if g is not None and args.rest is None and args.kwrest is None:
                try:
                    return g(args2, node, st)
                except Inexact:
                    pass
                except (IndexError, ValueError) as e:
                    self.raise_alt(type(e).__name__, st)
                    return None
        if self.isgrid(o):
            if name in ("sort", "fill", "put", "resize"):
                self.arr_setitem(o, const("..."), self.desc_arr(o, st).all(),
                                 st, node, True)
                return NONE
            v = self.demote(a, st, node, "m")
            return super().arr_method(v.single(), v, name, args, node, st)
        return super().arr_method(o, a, name, args, node, st)

    def tolist(self, o, a, st, node):
        r = self.arr_cells(o, a.lab, st) if self.on() else None
        if r is None:
            return super().tolist(o, a, st, node)

        def build(shape, cells, k):
            if not shape:
                return cells[0]
            n = prod(shape[1:])
            return self.seq(st, node, "list", [
                build(shape[1:], cells[i * n:(i + 1) * n], k + (i,))
                for i in range(shape[0])], extra=("tl",) + k)
        return build(r[0], r[1], ())

    def to_array(self, v, st, node, copy=False, extra=None):
        if self.on():
            o = v.single()
            if o is not None and not (isinstance(o, Arr) and not copy):
                r = self.cells(v, st)
                if r is not None and r[0] and len(r[1]) <= MAXCELLS:
                    return self.mk(r[0], r[1], st, node, ("toarr", extra),
                                   lab=v.lab)
        return super().to_array(v, st, node, copy, extra)

    def grid_in(self, a, b, st):
        """truth values of `a in b` for an exactly known array"""
        r = self.cells(b, st) if self.on() else None
        if r is None or a.objs:
            return None
        es = [self.eq_truth(a, c, st) for c in r[1]]
        if any(e == {True} for e in es):
            return {True}
        if all(e == {False} for e in es):
            return {False}
        return None

    # ------------------------------------------------------ functions
    def call_ext(self, t, args, node, st):
        if not self.on() or not t.path.startswith("numpy."):
            return super().call_ext(t, args, node, st)
        name = t.path[6:].replace(".", "_")
        g = getattr(self, "g_" + name, None)
        if g is not None and args.rest is None and args.kwrest is None:
            try:
                r = g(args, node, st)
            except Inexact:
                pass
            except (IndexError, ValueError) as e:
                self.raise_alt(type(e).__name__, st)
                from .interp import Bottom
                raise Bottom()
            else:
                self.I.emit("ext-call", node, path=t.path, args=args, st=st)
                return r
        from .extlib import CMP2, ELEM, ELEM2, LOGIC2
        if name not in ELEM and name not in ELEM2 and name not in LOGIC2 \
                and name not in CMP2 and name not in PAIRWISE:
            from .interp import Args
            new = Args([self.demote(v, st, node, k)
                        for k, v in enumerate(args.pos)],
                       {k: self.demote(v, st, node, k)
                        for k, v in args.kw.items()}, args.rest, args.kwrest)
            new.restsp = args.restsp
            args = new
        return super().call_ext(t, args, node, st)

    def g_array(self, args, node, st):
        v = args.get(0, "object")
        sh, cs = self.need(v, st)
        if not sh:
            raise Inexact
        return self.mk(sh, cs, st, node, "array", lab=v.lab)

    def g_asarray(self, args, node, st):
        v = args.get(0, "a")
        if isinstance(v.single(), Arr):
            self.need(v, st)
            return v
        return self.g_array(args, node, st)

    def g_asarray_chkfinite(self, args, node, st):
        from .interp import Args
        v = args.get(0, "a")
        sh, cs = self.need(v, st)
        if not sh:
            raise Inexact
        flat = self.mk((len(cs),), cs, st, node, "chk")
        self.np_asarray_chkfinite(Args([flat] + args.pos[1:], args.kw), node,
                                  st)
        if isinstance(v.single(), Arr):
            return v
        return self.mk(sh, cs, st, node, "array", lab=v.lab)

    def g_copy(self, args, node, st):
        v = args.get(0, "a")
        sh, cs = self.need(v, st)
        if not sh:
            raise Inexact
        return self.mk(sh, cs, st, node, "copy", lab=v.lab)

    def g_atleast_1d(self, args, node, st):
        if len(args.pos) != 1:
            raise Inexact
        v = args.pos[0]
        sh, cs = self.need(v, st)
        if sh and isinstance(v.single(), Arr):
            return v
        return self.mk(sh or (1,), cs, st, node, "al1", lab=v.lab)

    def g_atleast_2d(self, args, node, st):
        if len(args.pos) != 1:
            raise Inexact
        v = args.pos[0]
        sh, cs = self.need(v, st)
        if len(sh) >= 2 and isinstance(v.single(), Arr):
            return v
        sh = sh if len(sh) >= 2 else (1,) + sh if sh else (1, 1)
        return self.mk(sh, cs, st, node, "al2", lab=v.lab)

    def permuted(self, v, perm, st, node):
        """the axes of v in the order perm"""
        sh, cs = self.need(v, st)
        n = len(sh)
        perm = [p if p >= 0 else p + n for p in perm]
        if sorted(perm) != list(range(n)):
            raise ValueError
        if perm == list(range(n)):
            return v
        ix = list(range(len(cs)))
        out_sh = tuple(sh[p] for p in perm)
        out = []
        for jx in indices(out_sh):
            k = [0] * n
            for p, j in zip(perm, jx):
                k[p] = j
            out.append(at(sh, ix, k))
        o = v.single()
        if isinstance(o, Arr) and cs:
            src = self.flat_ix(o, st)
            return obj(Arr(o.buf, self.axes_of(out_sh),
                           tuple(src[i] for i in out)), v.lab)
        return self.mk(out_sh, [cs[i] for i in out], st, node, "T",
                       lab=v.lab)

    def ints_of(self, v, st):
        sh, cs = self.need(v, st)
        xs = self.consts(cs)
        if len(sh) > 1 or not all(isinstance(x, int) for x in xs):
            raise Inexact
        return xs

    def g_transpose(self, args, node, st):
        v = args.get(0, "a")
        ax = args.get(1, "axes")
        sh, _ = self.need(v, st)
        if ax is None or ax.is_const() and ax.const() is None:
            perm = list(reversed(range(len(sh))))
        else:
            perm = self.ints_of(ax, st)
        return self.permuted(v, perm, st, node)

    def g_swapaxes(self, args, node, st):
        v = args.get(0, "a")
        sh, _ = self.need(v, st)
        i, j = self.consts([args.get(1, "axis1", UNK),
                            args.get(2, "axis2", UNK)])
        perm = list(range(len(sh)))
        perm[i], perm[j] = perm[j], perm[i]
        return self.permuted(v, perm, st, node)

    def g_moveaxis(self, args, node, st):
        v = args.get(0, "a")
        sh, _ = self.need(v, st)
        n = len(sh)
        src = [x % n for x in self.ints_of(args.get(1, "source", UNK), st)]
        dst = [x % n for x in self.ints_of(args.get(2, "destination", UNK),
                                           st)]
        perm = [k for k in range(n) if k not in src]
        for d, s in sorted(zip(dst, src)):
            perm.insert(d, s)
        return self.permuted(v, perm, st, node)

    def g_rollaxis(self, args, node, st):
        v = args.get(0, "a")
        sh, _ = self.need(v, st)
        n = len(sh)
        ax, to = self.consts([args.get(1, "axis", UNK),
                              args.get(2, "start", const(0))])
        ax, to = ax % n, to + n if to < 0 else to
        to -= to > ax
        perm = [k for k in range(n) if k != ax]
        perm.insert(to, ax)
        return self.permuted(v, perm, st, node)

    def reshaped(self, v, sh, st, node):
        from .interp import Args
        return self.g_reshape(Args([v, self.seq(
            st, node, "tuple", [const(n) for n in sh], extra="rsh")]),
            node, st)

    def g_expand_dims(self, args, node, st):
        v = args.get(0, "a")
        sh, _ = self.need(v, st)
        ax = self.ints_of(args.get(1, "axis", UNK), st)
        n = len(sh) + len(ax)
        ax = {x % n for x in ax}
        it = iter(sh)
        return self.reshaped(v, [1 if k in ax else next(it)
                                 for k in range(n)], st, node)

    def g_squeeze(self, args, node, st):
        v = args.get(0, "a")
        ax = args.get(1, "axis")
        sh, cs = self.need(v, st)
        if ax is not None:
            ax = {x % len(sh) for x in self.ints_of(ax, st)}
            if any(sh[k] != 1 for k in ax):
                raise ValueError
        out = [n for k, n in enumerate(sh)
               if (n != 1 if ax is None else k not in ax)]
        if not out:
            raise Inexact
        return self.reshaped(v, out, st, node)

    def g_hsplit(self, args, node, st, axis=1):
        v = args.get(0, "ary")
        sh, cs = self.need(v, st)
        n = self.consts([args.get(1, "indices_or_sections")])[0]
        if not isinstance(n, int) or len(sh) not in (1, 2) or len(
                args.pos) + len(args.kw) != 2:
            raise Inexact
        axis = min(axis, len(sh) - 1)
        if n < 1 or sh[axis] % n:
            raise ValueError
        k = sh[axis] // n
        out = []
        o = v.single()
        src = self.flat_ix(o, st) if isinstance(o, Arr) and o.axes and \
            self.arr_cells(o, E0, st) is not None else None
        for j in range(n):
            comps = [slice(None)] * axis + [slice(j * k, (j + 1) * k)]
            if src is not None:
                s2, ix, _ = take_index(sh, src, comps)
                out.append(obj(Arr(o.buf, self.axes_of(s2), tuple(ix)),
                               v.lab))
            else:
                s2, ix, _ = take_index(sh, list(range(len(cs))), comps)
                out.append(self.mk(s2, [cs[i] for i in ix], st, node,
                                   ("split", j), lab=v.lab))
        return self.seq(st, node, "list", out)

    def g_vsplit(self, args, node, st):
        return self.g_hsplit(args, node, st, 0)

    def g_split(self, args, node, st):
        if len(args.pos) + len(args.kw) != 2:
            raise Inexact
        return self.g_hsplit(args, node, st, 0)

    def g_ravel(self, args, node, st):
        v = args.get(0, "a")
        if len(args.pos) + len(args.kw) != 1:
            raise Inexact
        sh, cs = self.need(v, st)
        o = v.single()
        if isinstance(o, Arr) and cs:
            return obj(Arr(o.buf, ("F",), tuple(self.flat_ix(o, st))), v.lab)
        return self.mk((len(cs),), cs, st, node, "ravel", lab=v.lab)

    def g_reshape(self, args, node, st):
        v = args.get(0, "a")
        if set(args.kw) - {"a", "newshape", "shape"} or len(args.pos) > 2:
            raise Inexact
        sh, cs = self.need(v, st)
        t = args.get(1, "newshape") or args.get(1, "shape")
        r = self.need(t, st)
        ks = self.consts(r[1])
        if not all(isinstance(k, int) for k in ks):
            raise Inexact
        if -1 in ks:
            rest = prod(k for k in ks if k != -1)
            if not rest or len(cs) % rest:
                raise ValueError
            ks[ks.index(-1)] = len(cs) // rest
        if prod(ks) != len(cs):
            raise ValueError
        o = v.single()
        if isinstance(o, Arr) and cs:
            return obj(Arr(o.buf, self.axes_of(tuple(ks)),
                           tuple(self.flat_ix(o, st))), v.lab)
        return self.mk(tuple(ks), cs, st, node, "reshape", lab=v.lab)

    def gparts(self, v, st):
        o = v.single()
        h = self.heap(o, st) if o is not None else None
        if isinstance(o, Arr):
            sh, cs = self.need(v, st)
            if not sh:
                raise Inexact
            n = prod(sh[1:])
            return [(sh[1:], cs[i * n:(i + 1) * n]) for i in range(sh[0])]
        if isinstance(h, Seq) and h.rest is None and h.typ in (
                "list", "tuple") and h.prefix:
            return [self.need(x, st) for x in h.prefix]
        raise Inexact

    def gcat(self, parts, axis, st, node, lab):
        r = len(parts[0][0])
        if any(len(p[0]) != r for p in parts) or r == 0:
            raise ValueError
        axis = axis % r
        for k in range(r):
            if k != axis and len({p[0][k] for p in parts}) > 1:
                raise ValueError
        sh = list(parts[0][0])
        sh[axis] = sum(p[0][axis] for p in parts)
        src = [(p, j) for p in parts for j in range(p[0][axis])]
        out = []
        for ix in indices(sh):
            p, j = src[ix[axis]]
            k = list(ix)
            k[axis] = j
            out.append(at(p[0], p[1], k))
        return self.mk(tuple(sh), out, st, node, "cat", lab=lab)

    def g_concatenate(self, args, node, st):
        ax = args.get(1, "axis")
        axis = self.consts([ax])[0] if ax is not None else 0
        v = args.get(0, "arrays")
        ps = self.gparts(v, st)
        if axis is None:
            ps = [((len(p[1]),), p[1]) for p in ps]
            axis = 0
        return self.gcat(ps, axis, st, node, v.lab)

    def g_row_stack(self, args, node, st):
        v = args.get(0, "tup")
        ps = [p if len(p[0]) > 1 else ((1,) + (p[0] or (1,)), p[1])
              for p in self.gparts(v, st)]
        return self.gcat(ps, 0, st, node, v.lab)

    g_vstack = g_row_stack

    def g_column_stack(self, args, node, st):
        v = args.get(0, "tup")
        ps = [p if len(p[0]) > 1 else ((p[0] or (1,)) + (1,), p[1])
              for p in self.gparts(v, st)]
        return self.gcat(ps, 1, st, node, v.lab)

    def g_hstack(self, args, node, st):
        v = args.get(0, "tup")
        ps = [p if p[0] else ((1,), p[1]) for p in self.gparts(v, st)]
        return self.gcat(ps, 0 if len(ps[0][0]) == 1 else 1, st, node, v.lab)

    def g_stack(self, args, node, st):
        ax = args.get(1, "axis")
        axis = self.consts([ax])[0] if ax is not None else 0
        v = args.get(0, "arrays")
        ps = self.gparts(v, st)
        r = len(ps[0][0]) + 1
        axis = axis % r
        ps = [(p[0][:axis] + (1,) + p[0][axis:], p[1]) for p in ps]
        return self.gcat(ps, axis, st, node, v.lab)

    def g_append(self, args, node, st):
        a, b = args.get(0, "arr"), args.get(1, "values")
        ax = args.get(2, "axis")
        x, y = self.need(a, st), self.need(b, st)
        if ax is None or ax.is_const() and ax.const() is None:
            x, y = ((len(x[1]),), x[1]), ((len(y[1]),), y[1])
            axis = 0
        else:
            axis = self.consts([ax])[0]
        return self.gcat([x, y], axis, st, node, a.lab | b.lab)

    def flipped(self, v, axes, st, node):
        sh, cs = self.need(v, st)
        if not sh:
            raise Inexact
        axes = range(len(sh)) if axes is None else [
            k % len(sh) for k in (axes if isinstance(axes, tuple)
                                  else (axes,))]
        ix = list(range(len(cs)))
        out = [at(sh, ix, [n - 1 - i if k in axes else i
                           for k, (i, n) in enumerate(zip(jx, sh))])
               for jx in indices(sh)]
        o = v.single()
        if isinstance(o, Arr) and cs:
            src = self.flat_ix(o, st)
            return obj(Arr(o.buf, self.axes_of(sh),
                           tuple(src[i] for i in out)), v.lab)
        return self.mk(sh, [cs[i] for i in out], st, node, "flip", lab=v.lab)

    def g_flip(self, args, node, st):
        ax = args.get(1, "axis")
        return self.flipped(args.get(0, "m"), self.consts([ax])[0]
                            if ax is not None else None, st, node)

    def g_flipud(self, args, node, st):
        return self.flipped(args.get(0, "m"), 0, st, node)

    def g_fliplr(self, args, node, st):
        return self.flipped(args.get(0, "m"), 1, st, node)

    def lanes(self, sh, axis):
        """lists of flat indices along an axis"""
        other = [n for k, n in enumerate(sh) if k != axis]
        ids = list(range(prod(sh)))
        out = []
        for ix in indices(other):
            lane = []
            for j in range(sh[axis]):
                k = list(ix)
                k.insert(axis, j)
                lane.append(at(sh, ids, k))
            out.append(lane)
        return out

    def order(self, vs):
        if all(v.is_const() for v in vs):
            ks = self.consts(vs)
            if not all(isinstance(k, (int, float)) for k in ks):
                raise Inexact
            return sorted(range(len(ks)), key=lambda i: ks[i])
        left, out = list(range(len(vs))), []
        while left:
            i = self.extreme([vs[j] for j in left], min)
            if i is None:
                raise Inexact
            out.append(left.pop(i))
        return out

    def along(self, args, name, node, st, fn):
        """replace every lane along an axis"""
        v = args.get(0, name)
        sh, cs = self.need(v, st)
        if not sh:
            raise Inexact
        ax = args.get(1, "axis")
        axis = self.consts([ax])[0] if ax is not None else -1
        if axis is None:
            sh, axis = (len(cs),), 0
        axis = axis % len(sh)
        out = list(cs)
        for lane in self.lanes(sh, axis):
            for i, x in zip(lane, fn([cs[i] for i in lane])):
                out[i] = x
        return self.mk(sh, out, st, node, "along", lab=v.lab)

    def g_sort(self, args, node, st):
        return self.along(args, "a", node, st, lambda vs: [
            vs[i] for i in self.order(vs)])

    def g_argsort(self, args, node, st):
        return self.along(args, "a", node, st, lambda vs: [
            const(i, vs[i].lab) for i in self.order(vs)])

    def g_lexsort(self, args, node, st):
        v = args.get(0, "keys")
        ps = [self.consts(p[1]) for p in self.gparts(v, st)]
        ix = sorted(range(len(ps[0])),
                    key=lambda i: tuple(p[i] for p in reversed(ps)))
        return self.mk((len(ix),), [const(i) for i in ix], st, node, "lex",
                       lab=v.lab)

    def g_unique(self, args, node, st):
        v = args.get(0, "ar")
        sh, cs = self.need(v, st)
        if set(args.kw) - {"ar", "return_index", "return_inverse",
                           "return_counts", "axis"} or len(args.pos) > 1:
            raise Inexact
        ax = args.kw.get("axis")
        axis = self.consts([ax])[0] if ax is not None else None
        if axis is not None and not (len(sh) == 1):
            raise Inexact
        ks = self.consts(cs)
        first = {}
        for i, k in enumerate(ks):
            first.setdefault(k, i)
        uniq = sorted(first)

        def flag(n):
            x = args.kw.get(n)
            return x is not None and self.consts([x])[0] is True
        out = [self.mk((len(uniq),), [cs[first[k]] for k in uniq], st, node,
                       "u0", lab=v.lab)]
        if flag("return_index"):
            out.append(self.mk((len(uniq),), [const(first[k])
                                              for k in uniq], st, node, "u1"))
        if flag("return_inverse"):
            out.append(self.mk((len(ks),), [const(uniq.index(k))
                                            for k in ks], st, node, "u2"))
        if flag("return_counts"):
            out.append(self.mk((len(uniq),), [const(ks.count(k))
                                              for k in uniq], st, node, "u3"))
        if len(out) == 1:
            return out[0]
        return self.seq(st, node, "tuple", out, extra="uniq")

    def g_delete(self, args, node, st):
        v = args.get(0, "arr")
        sh, cs = self.need(v, st)
        r = self.need(args.get(1, "obj"), st)
        ks = self.consts(r[1])
        ax = args.get(2, "axis")
        axis = self.consts([ax])[0] if ax is not None else None
        if axis is None:
            sh, axis = (len(cs),), 0
        axis = axis % len(sh)
        n = sh[axis]
        if ks and all(isinstance(k, bool) for k in ks):
            drop = {i for i, k in enumerate(ks) if k}
        else:
            if any(not -n <= k < n for k in ks):
                raise IndexError
            drop = {k % n for k in ks}
        keep = [i for i in range(n) if i not in drop]
        out = []
        ns = list(sh)
        ns[axis] = len(keep)
        for ix in indices(ns):
            k = list(ix)
            k[axis] = keep[ix[axis]]
            out.append(at(sh, cs, k))
        return self.mk(tuple(ns), out, st, node, "del", lab=v.lab)

    def g_insert(self, args, node, st):
        v = args.get(0, "arr")
        sh, cs = self.need(v, st)
        k = self.consts([args.get(1, "obj")])[0]
        if len(sh) != 1 or not isinstance(k, int):
            raise Inexact
        w = self.need(args.get(2, "values"), st)
        out = list(cs)
        out[k:k] = w[1]
        return self.mk((len(out),), out, st, node, "ins", lab=v.lab)

    def g_where(self, args, node, st):
        c = args.get(0, "condition")
        sh, cs = self.need(c, st)
        if len(args.pos) == 3:
            x, y = args.pos[1], args.pos[2]
            xs, ys = self.need(x, st), self.need(y, st)
            to = bshape(sh, xs[0], ys[0])
            out = []
            for t, p, q in zip(bcast(sh, cs, to), bcast(*xs, to),
                               bcast(*ys, to)):
                out.append(self.choice(t, p, q, st))
            return self.mk(to, out, st, node, "where",
                           lab=c.lab | x.lab | y.lab)
        return self.g_nonzero(args, node, st)

    def hits(self, v, st):
        sh, cs = self.need(v, st)
        ts = [self.I.truth(c, st) for c in cs]
        if any(len(t) != 1 for t in ts):
            raise Inexact
        sh = sh or (1,)
        lab = frozenset().union(v.lab, *[c.lab for c in cs])
        return sh, [ix for ix, t in zip(indices(sh), ts) if t == {True}], lab

    def g_nonzero(self, args, node, st):
        v = args.get(0, "condition") or args.get(0, "a")
        sh, hs, lab = self.hits(v, st)
        return self.seq(st, node, "tuple", [
            self.mk((len(hs),), [const(h[k]) for h in hs], st, node,
                    ("nz", k), lab=lab) for k in range(len(sh))],
            extra="nz")

    def g_flatnonzero(self, args, node, st):
        sh, hs, lab = self.hits(args.get(0, "a"), st)
        st_ = strides(sh)
        return self.mk((len(hs),), [const(sum(i * s for i, s in zip(
            h, st_))) for h in hs], st, node, "fnz", lab=lab)

    def g_argwhere(self, args, node, st):
        sh, hs, lab = self.hits(args.get(0, "a"), st)
        return self.mk((len(hs), len(sh)), [const(i) for h in hs for i in h],
                       st, node, "aw", lab=lab)

    def g_isin(self, args, node, st):
        a, b = args.get(0, "element"), args.get(1, "test_elements")
        if len(args.pos) + len(args.kw) != 2:
            raise Inexact
        sh, cs = self.need(a, st)
        ys = self.need(b, st)[1]
        out = []
        for c in cs:
            es = [self.eq_truth(c, y, st) for y in ys]
            t = True if any(e == {True} for e in es) else False if all(
                e == {False} for e in es) else None
            if t is None:
                raise Inexact
            out.append(const(t, c.lab))
        return self.mk(sh, out, st, node, "isin", lab=a.lab | b.lab)

    g_in1d = g_isin

    def g_tile(self, args, node, st):
        v = args.get(0, "A")
        sh, cs = self.need(v, st)
        reps = tuple(self.consts(self.need(args.get(1, "reps"), st)[1]))
        r = max(len(sh), len(reps))
        sh = (1,) * (r - len(sh)) + tuple(sh)
        reps = (1,) * (r - len(reps)) + reps
        to = tuple(n * k for n, k in zip(sh, reps))
        return self.mk(to, [at(sh, cs, [i % n for i, n in zip(ix, sh)])
                            for ix in indices(to)], st, node, "tile",
                       lab=v.lab)

    def g_repeat(self, args, node, st):
        v = args.get(0, "a")
        sh, cs = self.need(v, st)
        k = self.consts([args.get(1, "repeats", UNK)])[0]
        ax = args.get(2, "axis")
        axis = self.consts([ax])[0] if ax is not None else None
        if not isinstance(k, int):
            raise Inexact
        if axis is None:
            sh, axis = (len(cs),), 0
        to = list(sh)
        to[axis] *= k
        out = []
        for ix in indices(to):
            j = list(ix)
            j[axis] //= k
            out.append(at(sh, cs, j))
        return self.mk(tuple(to), out, st, node, "rep", lab=v.lab)

    def g_roll(self, args, node, st):
        v = args.get(0, "a")
        sh, cs = self.need(v, st)
        k = self.consts([args.get(1, "shift", UNK)])[0]
        ax = args.get(2, "axis")
        axis = self.consts([ax])[0] if ax is not None else None
        if axis is None:
            n = len(cs)
            return self.mk(sh, [cs[(i - k) % n] for i in range(n)], st, node,
                           "roll", lab=v.lab)
        out = []
        for ix in indices(sh):
            j = list(ix)
            j[axis] = (j[axis] - k) % sh[axis]
            out.append(at(sh, cs, j))
        return self.mk(sh, out, st, node, "roll", lab=v.lab)

    def g_meshgrid(self, args, node, st):
        if set(args.kw) - {"indexing"}:
            raise Inexact
        k = args.kw.get("indexing")
        xy = k is None or self.consts([k])[0] == "xy"
        xs = [self.need(v, st)[1] for v in args.pos]
        order = list(range(len(xs)))
        if xy and len(xs) > 1:
            order[0], order[1] = 1, 0
        sh = tuple(len(xs[i]) for i in order)
        outs = []
        for n, x in enumerate(xs):
            pos = order.index(n)
            outs.append(self.mk(sh, [x[ix[pos]] for ix in indices(sh)], st,
                                node, ("mesh", n), lab=args.pos[n].lab))
        return self.seq(st, node, "list", outs, extra="mesh")

    def gfilled(self, args, node, st, val, i, name="shape"):
        v = args.get(0, name)
        r = self.need(v, st)
        ks = self.consts(r[1])
        if not all(isinstance(k, int) for k in ks) or prod(ks) > MAXCELLS:
            raise Inexact
        dt = args.get(i, "dtype")
        t = dt.single() if dt is not None else None
        if isinstance(t, Ext) and t.path == "builtins.bool" and \
                val.is_const():
            val = const(bool(val.const()), val.lab)
        return self.mk(tuple(ks), [val] * prod(ks), st, node, "filled",
                       lab=v.lab)

    def g_zeros(self, args, node, st):
        return self.gfilled(args, node, st, const(0.0), 1)

    def g_ones(self, args, node, st):
        return self.gfilled(args, node, st, const(1.0), 1)

    def g_full(self, args, node, st):
        v = args.get(1, "fill_value", UNK)
        if v.objs:
            raise Inexact
        return self.gfilled(args, node, st, v, 2)

    def like(self, args, node, st, val):
        v = args.get(0, "a")
        sh, cs = self.need(v, st)
        dt = args.get(1, "dtype")
        t = dt.single() if dt is not None else None
        if isinstance(t, Ext) and t.path == "builtins.bool":
            val = const(bool(val.const()))
        return self.mk(sh, [val] * len(cs), st, node, "like")

    def g_zeros_like(self, args, node, st):
        return self.like(args, node, st, const(0.0))

    def g_ones_like(self, args, node, st):
        return self.like(args, node, st, const(1.0))

    def g_arange(self, args, node, st):
        ks = self.consts(args.pos)
        if args.kw or not all(isinstance(k, (int, float)) for k in ks):
            raise Inexact
        lo, hi, step = (0, ks[0], 1) if len(ks) == 1 else (
            ks[0], ks[1], ks[2] if len(ks) > 2 else 1)
        out = []
        while len(out) <= MAXCELLS and (lo + step * len(out) < hi
                                        if step > 0 else False):
            out.append(lo + step * len(out))
        return self.mk((len(out),), [const(x) for x in out], st, node, "ar")

    def g_linspace(self, args, node, st):
        if set(args.kw) - {"start", "stop", "num", "endpoint"} or len(
                args.pos) > 4:
            raise Inexact
        n, end = self.consts([args.get(2, "num", const(50)),
                              args.get(3, "endpoint", const(True))])
        ends = [args.get(0, "start"), args.get(1, "stop")]
        if isinstance(n, int) and 0 < n <= 40 and any(
                not v.is_const() for v in ends):
            return self.steps(ends, n, n - 1 if end else n, node, st)
        lo, hi = self.consts(ends)
        if not (isinstance(lo, (int, float)) and isinstance(hi, (int, float))
                and isinstance(n, int) and 0 <= n <= 40):
            raise Inexact
        d = n - 1 if end else n
        out = [lo + (hi - lo) / d * i if d else float(lo) for i in range(n)]
        if end and n > 1:
            out[-1] = float(hi)
        lab = E0
        for v in args.pos:
            lab = lab | v.lab
        return self.mk((n,), [const(float(x)) for x in out], st, node,
                       "lin", lab=lab)

    def steps(self, ends, n, d, node, st):
        """n numbers (rows) between known forms"""
        (sa, ca), (sb, cb) = [self.need(v, st) for v in ends]
        sh = bshape(sa, sb)
        lab = ends[0].lab | ends[1].lab
        out = []
        pairs = list(zip(bcast(sa, ca, sh), bcast(sb, cb, sh)))
        for i in range(n):
            for p, q in pairs:
                if i == 0 or i == d:
                    out.append(p if i == 0 else q)
                    continue
                t = const(i / d)
                out.append(self.scalar_binop(
                    ast.Add(), self.scalar_binop(
                        ast.Mult(), p, const(1 - i / d), st, node),
                    self.scalar_binop(ast.Mult(), q, t, st, node), st, node))
        return self.mk((n, *sh), out, st, node, "lin", lab=lab)

    def g_cross(self, args, node, st):
        if len(args.pos) != 2 or args.kw:
            raise Inexact
        (sa, ca), (sb, cb) = [self.need(v, st) for v in args.pos]
        sh = bshape(sa, sb)
        if not sh or sa[-1:] != (3,) or sb[-1:] != (3,):
            raise Inexact
        ca, cb, out = bcast(sa, ca, sh), bcast(sb, cb, sh), []

        def mul(p, q):
            return self.scalar_binop(ast.Mult(), p, q, st, node)
        for i in range(0, len(ca), 3):
            a, b = ca[i:i + 3], cb[i:i + 3]
            for j in range(3):
                k, m = (j + 1) % 3, (j + 2) % 3
                out.append(self.scalar_binop(
                    ast.Sub(), mul(a[k], b[m]), mul(a[m], b[k]), st, node))
        return self.mk(sh, out, st, node, "cross",
                       lab=args.pos[0].lab | args.pos[1].lab)

    def g_searchsorted(self, args, node, st):
        sh, cs = self.need(args.get(0, "a"), st)
        ns, vs = self.need(args.get(1, "v"), st)
        side, srt = self.consts([args.get(2, "side", const("left")),
                                 args.get(3, "sorter", const(None))])
        ks, xs = self.consts(cs), self.consts(vs)
        if len(sh) != 1 or srt is not None or ks != sorted(ks):
            raise Inexact
        f = bisect.bisect_left if side == "left" else bisect.bisect_right
        out = [const(f(ks, x)) for x in xs]
        if not ns:
            return out[0]
        return self.mk(ns, out, st, node, "ss")

    def g_take(self, args, node, st):
        v = args.get(0, "a")
        sh, cs = self.need(v, st)
        r = self.need(args.get(1, "indices"), st)
        ks = self.consts(r[1])
        ax = args.get(2, "axis")
        axis = self.consts([ax])[0] if ax is not None else None
        if axis is None:
            sh, axis = (len(cs),), 0
        axis = axis % len(sh)
        comp = [slice(None)] * axis + [
            ("ints", r[0], ks) if r[0] else ks[0]]
        ns, out, _ = take_index(sh, cs, comp)
        return self.mk(ns, out, st, node, "take", lab=v.lab)

    # ------------------------------------------------------ reductions
    def reduced(self, name, args, node, st):
        from .interp import Args
        v = args.get(0, "a")
        sh, cs = self.need(v, st)
        ax = args.get(1, "axis")
        if ax is None or len(sh) < 2 or set(args.kw) - {"a", "axis"} or len(
                args.pos) > 2:
            if len(sh) > 1 and ax is None and len(args.pos) == 1 and \
                    not args.kw:
                flat = self.mk((len(cs),), cs, st, node, ("red", "all"))
                return self.red1(name, flat, node, st).withlab(v.lab)
            if len(sh) == 1 and name in STATS and len(args.pos) + len(
                    args.kw) == (1 if ax is None else 2) and (
                        ax is None or ax.is_const() and ax.const() in (
                            None, 0, -1)):
                return self.red1(name, self.mk(
                    sh, cs, st, node, ("red", "one")), node, st).withlab(
                        v.lab)
            raise Inexact
        axis = self.consts([ax])[0]
        if not isinstance(axis, int):
            raise Inexact
        axis = axis % len(sh)
        out = []
        for k, lane in enumerate(self.lanes(sh, axis)):
            x = self.mk((len(lane),), [cs[i] for i in lane], st, node,
                        ("red", k))
            out.append(self.red1(name, x, node, st))
        if any(x.objs for x in out):
            raise Inexact
        return self.mk(sh[:axis] + sh[axis + 1:], out, st, node, "redr",
                       lab=v.lab)

    def fold1(self, op, vs, st, node):
        acc = None
        for v in vs:
            acc = v if acc is None else self.scalar_binop(
                op, acc, v, st, node)
        return acc

    def spread(self, cs, st, node):
        n = const(len(cs))
        mu = self.scalar_binop(ast.Div(), self.fold1(
            ast.Add(), cs, st, node), n, st, node)
        ds = [self.scalar_binop(ast.Sub(), c, mu, st, node) for c in cs]
        return self.scalar_binop(ast.Div(), self.fold1(ast.Add(), [
            self.scalar_binop(ast.Mult(), d, d, st, node) for d in ds],
            st, node), n, st, node)

    def red1(self, name, x, node, st):
        from .interp import Args
        if name in ("sum", "mean", "prod"):
            sh, cs = self.need(x, st)
            if cs and not any(c.objs for c in cs) and all(
                    poly.of(c) is not None for c in cs):
                r = self.fold1(ast.Mult() if name == "prod" else ast.Add(),
                               cs, st, node)
                if name == "mean":
                    r = self.scalar_binop(ast.Div(), r, const(len(cs)), st,
                                          node)
                return r
        if name in ("var", "std"):
            sh, cs = self.need(x, st)
            if cs and not any(c.objs for c in cs) and all(
                    poly.of(c) is not None for c in cs) and any(
                        "poly" in c.f for c in cs):
                r = self.spread(cs, st, node)
                if name == "std":
                    r = self.elem1("sqrt", r, node, st)
                return r.withlab(x.lab)
        if name == "median":
            sh, cs = self.need(x, st)
            if cs and not any(c.objs for c in cs) and any(
                    "poly" in c.f for c in cs):
                xs = [cs[i] for i in self.order(cs)]
                n = len(xs)
                return self.between(xs[(n - 1) // 2], xs[n // 2],
                                    0 if n % 2 else .5, st, node).withlab(
                                        x.lab)
        if name in ("any", "all"):
            return self._npanyall(Args([x]), node, st, name == "any")
        sh, cs = self.need(x, st)
        if cs and name in STATS and all(
                c.is_const() and poly.num(c.const()) for c in cs):
            lab = frozenset().union(x.lab, *[c.lab for c in cs])
            r = STATS[name]([c.const() for c in cs])
            f = dict(join(*cs[:2]).f) if len(cs) > 1 else dict(cs[0].f)
            f = {k: y for k, y in f.items() if k in ("ang", "role", "raw")}
            return V(E0, E0, frozenset((Const(r),)), lab, f)
        if cs and name in ("min", "max", "amin", "amax"):
            i = self.extreme(cs, max if "max" in name else min)
            if i is not None:
                return cs[i].withlab(frozenset().union(
                    x.lab, *[c.lab for c in cs]))
            v = self.extremum(cs, "max" in name)
            if v is not None:
                return v.withlab(x.lab)
        return self.np_reduce(name, Args([x]), node, st)

    def running(self, op, args, node, st):
        """sums or products of the first values"""
        v = args.get(0, "a")
        sh, cs = self.need(v, st)
        ax = args.get(1, "axis")
        if set(args.kw) - {"a", "axis"} or len(args.pos) > 2 or any(
                poly.of(c) is None or c.f.get("fn") for c in cs):
            raise Inexact
        axis = None if ax is None else self.consts([ax])[0]
        if axis is None:
            sh, axis = (len(cs),), 0
        out = [None] * len(cs)
        for lane in self.lanes(sh, axis % len(sh)):
            acc = None
            for i in lane:
                acc = out[i] = cs[i] if acc is None else self.scalar_binop(
                    op, acc, cs[i], st, node)
        return self.mk(sh, out, st, node, "run", lab=v.lab)

    def g_cumsum(self, args, node, st):
        return self.running(ast.Add(), args, node, st)

    def g_cumprod(self, args, node, st):
        return self.running(ast.Mult(), args, node, st)

    def g_interp(self, args, node, st):
        if len(args.pos) != 3 or args.kw:
            raise Inexact
        x, xp, fp = args.pos
        (sx, cx), (sp, cp), (sf, cf) = (self.need(v, st) for v in args.pos)
        if len(sp) != 1 or sp != sf or not cp:
            raise Inexact
        ps = self.consts(cp)
        if any(a > b for a, b in zip(ps, ps[1:])):
            raise Inexact
        out = []
        for c in cx:
            if not c.is_const():
                # the same value everywhere
                if not all(f.is_const() for f in cf) or len(
                        {f.const() for f in cf}) != 1:
                    raise Inexact
                out.append(cf[0].withlab(c.lab))
                continue
            k = c.const()
            i = sum(p <= k for p in ps) - 1
            if i < 0 or i == len(ps) - 1:
                out.append(cf[max(i, 0)])
                continue
            w = (k - ps[i]) / (ps[i + 1] - ps[i])
            out.append(self.fold1(ast.Add(), [
                self.scalar_binop(ast.Mult(), const(float(v)), f, st, node)
                for v, f in ((1 - w, cf[i]), (w, cf[i + 1]))], st, node))
        lab = x.lab | xp.lab | fp.lab
        return self.mk(sx, out, st, node, "interp", lab=lab)

    def g_diff(self, args, node, st):
        v = args.get(0, "a")
        sh, cs = self.need(v, st)
        ax = args.kw.get("axis", const(-1))
        axis = self.consts([ax])[0]
        if set(args.kw) - {"a", "axis"} or len(args.pos) > 1 or not sh:
            raise Inexact
        axis = axis % len(sh)
        if sh[axis] < 1:
            raise Inexact
        ns = sh[:axis] + (sh[axis] - 1,) + sh[axis + 1:]
        return self.mk(ns, [self.scalar_binop(
            ast.Sub(), at(sh, cs, k[:axis] + (k[axis] + 1,) + k[axis + 1:]),
            at(sh, cs, k), st, node) for k in indices(ns)], st, node,
            "diff", lab=v.lab)

    def g_std(self, args, node, st, name="std"):
        ddof = args.kw.get("ddof")
        if ddof is None or len(args.pos) > 1 or set(args.kw) - {
                "a", "ddof", "axis"}:
            return self.reduced(name, args, node, st)
        k = self.consts([ddof])[0]
        ax = args.kw.get("axis")
        sh, cs = self.need(args.get(0, "a"), st)
        if len(sh) != 1 and (ax is None or not ax.is_const()
                             or ax.const() is not None) or k not in (
                                 0, 1) or not cs or any(
                    poly.of(c) is None for c in cs):
            raise Inexact
        n = len(cs)
        if n == k:
            return const(float("nan"))
        r = self.scalar_binop(ast.Mult(), self.spread(cs, st, node),
                              const(n / (n - k)), st, node)
        return self.elem1("sqrt", r, node, st) if name == "std" else r

    def g_var(self, args, node, st):
        return self.g_std(args, node, st, "var")

    def g_argmax(self, args, node, st, pick=max):
        v = args.get(0, "a")
        sh, cs = self.need(v, st)
        ax = args.get(1, "axis")
        ks = self.consts(cs)
        if not ks or not all(poly.num(k) for k in ks) or set(args.kw) - {
                "a", "axis"} or len(args.pos) > 2:
            raise Inexact
        lab = frozenset().union(v.lab, *[c.lab for c in cs])
        axis = None if ax is None else self.consts([ax])[0]
        if axis is None or len(sh) == 1:
            return const(ks.index(pick(ks)), lab)
        axis = axis % len(sh)
        out = []
        for lane in self.lanes(sh, axis):
            xs = [ks[i] for i in lane]
            out.append(const(xs.index(pick(xs)), lab))
        return self.mk(sh[:axis] + sh[axis + 1:], out, st, node, "argm",
                       lab=v.lab)

    def g_argmin(self, args, node, st):
        return self.g_argmax(args, node, st, min)

    def g_percentile(self, args, node, st, scale=100):
        sh, cs = self.need(args.get(0, "a"), st)
        q = self.consts([args.get(1, "q", NONE)])[0]
        if not cs or len(sh) != 1 or not poly.num(q) or set(args.kw) - {
                "a", "q"} or len(args.pos) > 2 or any(
                    poly.of(c) is None for c in cs):
            raise Inexact
        if not 0 <= q <= scale:
            raise ValueError
        xs = [cs[i] for i in self.order(cs)]
        t = (len(xs) - 1) * q / scale
        i = min(int(t), len(xs) - 1)
        j = min(i + 1, len(xs) - 1)
        lab = frozenset().union(args.get(0, "a").lab, *[c.lab for c in cs])
        if not all(c.is_const() for c in (xs[i], xs[j])):
            return self.between(xs[i], xs[j], t - i, st, node).withlab(lab)
        xs = [c.const() if c.is_const() else None for c in xs]
        return const(float(xs[i] + (xs[j] - xs[i]) * (t - i)), lab)

    def between(self, a, b, t, st, node):
        """a + (b - a) * t"""
        if t == 0:
            return a
        return self.scalar_binop(ast.Add(), a, self.scalar_binop(
            ast.Mult(), self.scalar_binop(ast.Sub(), b, a, st, node),
            const(float(t)), st, node), st, node)

    def g_quantile(self, args, node, st):
        return self.g_percentile(args, node, st, 1)

    def g_average(self, args, node, st):
        w = args.get(2, "weights")
        if w is None or w.is_const():
            return self.reduced("mean", args, node, st)
        if len(args.pos) > 1 or set(args.kw) - {"a", "weights"}:
            raise Inexact
        sh, cs = self.need(args.get(0, "a"), st)
        wh, ws = self.need(w, st)
        if len(sh) != 1 or sh != wh or not cs:
            raise Inexact
        total = self.fold1(ast.Add(), ws, st, node)
        s = self.fold1(ast.Add(), [
            self.scalar_binop(ast.Mult(), c, x, st, node)
            for c, x in zip(cs, ws)], st, node)
        if total.is_const() and total.const() == 0:
            self.raise_alt("ZeroDivisionError", st)
            from .interp import Bottom
            raise Bottom()
        return self.scalar_binop(ast.Div(), s, total, st, node)

    def np_dot(self, args, node, st, *extra):
        x, y, s, n = (args, node, st, extra[0]) if extra else (
            args.get(0, "a", UNK), args.get(1, "b", UNK), st, node)
        if self.on() and (extra or not args.kw and len(args.pos) <= 2):
            try:
                return self.matmuls(x, y, n, s, not extra)
            except Inexact:
                pass
            if not extra:
                from .interp import Args
                return super().np_dot(Args([self.demote(x, s, n, 0),
                                            self.demote(y, s, n, 1)]), n, s)
            return super().np_dot(self.demote(x, s, n, 0),
                                  self.demote(y, s, n, 1), s, n)
        return super().np_dot(args, node, st, *extra)

    def batches(self, sa, ca, sb, cb, lab, node, st):
        """products of matrices that are stacked along the first axes"""
        if len(sb) < 2 or sa[-1] != sb[-2]:
            raise Inexact
        lead = bshape(sa[:-2], sb[:-2])
        m, n, k = sa[-2], sa[-1], sb[-1]
        if not prod(lead) * m * n * k or prod(lead) * m * n * k > 600:
            raise Inexact
        ca = bcast(sa, ca, lead + (m, n))
        cb = bcast(sb, cb, lead + (n, k))
        out = []
        for b in range(prod(lead)):
            for i in range(m):
                for j in range(k):
                    out.append(self.fold1(ast.Add(), [
                        self.scalar_binop(
                            ast.Mult(), ca[(b * m + i) * n + q],
                            cb[(b * n + q) * k + j], st, node)
                        for q in range(n)], st, node))
        return self.mk(lead + (m, k), out, st, node, "dot", lab=lab)

    def matmuls(self, x, y, node, st, dot=False):
        (sa, ca), (sb, cb) = self.need(x, st), self.need(y, st)
        if dot and len(sb) > 2:
            raise Inexact
        if len(sa) > 2 and len(sb) <= 2 or len(sb) > 2 and len(sa) > 1:
            return self.batches(sa, ca, sb, cb, x.lab | y.lab, node, st)
        if not sa or not sb or len(sa) > 2 or len(sb) > 2:
            raise Inexact
        ra = [ca] if len(sa) == 1 else [
            ca[i * sa[1]:(i + 1) * sa[1]] for i in range(sa[0])]
        rb = [cb] if len(sb) == 1 else [cb[j::sb[1]] for j in range(sb[1])]
        if any(len(p) != len(q) for p in ra for q in rb):
            self.raise_alt("ValueError", st)
            from .interp import Bottom
            raise Bottom()
        if not ra or not rb or not ra[0]:
            raise Inexact
        out = [self.fold1(ast.Add(), [
            self.scalar_binop(ast.Mult(), p, q, st, node)
            for p, q in zip(r, c)], st, node) for r in ra for c in rb]
        sh = (() if len(sa) == 1 else (sa[0],)) + (
            () if len(sb) == 1 else (sb[1],))
        if not sh:
            return out[0]
        return self.mk(sh, out, st, node, "dot", lab=x.lab | y.lab)

    def g_linalg_norm(self, args, node, st):
        v = args.get(0, "x")
        sh, cs = self.need(v, st)
        o, ax = self.consts([args.get(1, "ord", NONE),
                             args.get(2, "axis", NONE)])
        if not sh or o not in (None, 2, 1) or o is not None and \
                ax is None and len(sh) > 1 or set(args.kw) - {
                    "x", "ord", "axis"} or len(args.pos) > 3:
            raise Inexact
        if ax is None:
            return self.norm1(cs, o, v.lab)
        if not isinstance(ax, int):
            raise Inexact
        ax = ax % len(sh)
        out = [self.norm1([cs[i] for i in lane], o, v.lab)
               for lane in self.lanes(sh, ax)]
        return self.mk(sh[:ax] + sh[ax + 1:], out, st, node, "norm",
                       lab=v.lab)

    def g_linalg_det(self, args, node, st, inverse=False):
        v = args.get(0, "a")
        sh, cs = self.need(v, st)
        if len(sh) != 2 or sh[0] != sh[1]:
            raise Inexact
        if not all(c.is_const() and poly.num(c.const()) for c in cs):
            return self.cofactors(sh[0], cs, inverse, v.lab, node, st)
        ks = self.consts(cs)
        lab = frozenset().union(v.lab, *[c.lab for c in cs])
        n = sh[0]
        det = 1.0
        a = [[float(x) for x in ks[i * n:(i + 1) * n]]
             + [1.0 * (i == j) for j in range(n)] for i in range(n)]
        for j in range(n):
            i = max(range(j, n), key=lambda r: abs(a[r][j]))
            if abs(a[i][j]) < 1e-12:
                if inverse and a[i][j] == 0:
                    self.raise_alt("numpy.linalg.LinAlgError", st)
                    return BOT
                if inverse:
                    raise Inexact
                return const(0.0, lab) if a[i][j] == 0 else prim(
                    "float", lab=lab)
            if i != j:
                a[i], a[j] = a[j], a[i]
                det = -det
            det *= a[j][j]
            a[j] = [x / a[j][j] for x in a[j]]
            for r in range(n):
                if r != j:
                    a[r] = [x - a[r][j] * y for x, y in zip(a[r], a[j])]
        if not inverse:
            return const(det, lab)
        return self.mk(sh, [const(x, lab) for row in a for x in row[n:]],
                       st, node, "inv", lab=v.lab)

    def cofactors(self, n, cs, inverse, lab, node, st):
        """determinant or inverse of a small matrix of known forms"""
        if not 0 < n <= 3 or not poly.STATE["on"] or any(
                poly.of(c) is None or c.f.get("fn") for c in cs):
            raise Inexact

        def op(o, p, q):
            return self.scalar_binop(o(), p, q, st, node)

        def det(a):
            if len(a) == 1:
                return a[0][0]
            r = None
            for j, x in enumerate(a[0]):
                t = op(ast.Mult, x, det([row[:j] + row[j + 1:]
                                         for row in a[1:]]))
                r = t if r is None else op(ast.Sub if j % 2 else ast.Add,
                                           r, t)
            return r
        a = [list(cs[i * n:(i + 1) * n]) for i in range(n)]
        d = det(a)
        if not inverse:
            return d
        if n == 1:
            return self.mk((1, 1), [op(ast.Div, const(1.0), d)], st, node,
                           "inv", lab=lab)
        out = []
        for i in range(n):
            for j in range(n):
                m = det([row[:i] + row[i + 1:] for k, row in enumerate(a)
                         if k != j])
                if (i + j) % 2:
                    m = op(ast.Sub, const(0.0), m)
                out.append(op(ast.Div, m, d))
        return self.mk((n, n), out, st, node, "inv", lab=lab)

    def g_linalg_solve(self, args, node, st):
        if len(args.pos) != 2 or args.kw:
            raise Inexact
        from .interp import Args
        inv = self.g_linalg_det(Args(args.pos[:1]), node, st, True)
        return self.matmuls(inv, args.pos[1], node, st)

    def g_eye(self, args, node, st):
        ks = self.consts([args.get(0, "N", NONE), args.get(1, "M", NONE),
                          args.get(2, "k", const(0))])
        n, k, o = ks
        k = n if k is None else k
        if set(args.kw) - {"N", "M", "k", "dtype"} or len(args.pos) > 3 or \
                not all(isinstance(x, int) for x in (n, k, o)) or not \
                0 < n * k <= 64:
            raise Inexact
        return self.mk((n, k), [const(1.0 * (j == i + o)) for i in range(n)
                                for j in range(k)], st, node, "eye")

    def g_identity(self, args, node, st):
        if len(args.pos) != 1 or args.kw:
            raise Inexact
        return self.g_eye(args, node, st)

    def g_linalg_inv(self, args, node, st):
        return self.g_linalg_det(args, node, st, True)

    def norm1(self, cs, o, lab):
        for c in cs:
            lab = lab | c.lab
        if all(c.is_const() and poly.num(c.const()) for c in cs):
            xs = [c.const() for c in cs]
            r = sum(abs(x) for x in xs) if o == 1 else sum(
                x * x for x in xs) ** 0.5
            return const(float(r), lab)
        f = {"iv": (0, float("inf"), False, True)}
        ps = [poly.of(c) for c in cs]
        if poly.STATE["on"] and ps and not any(
                p is None or c.f.get("fn") for p, c in zip(ps, cs)):
            qs = [(poly.term("abs", p) if p else p) if o == 1 else
                  poly.mul(p, p) or (p and poly.term("mul", p, p))
                  for p in ps]
            s = ()
            for q in qs:
                s = None if s is None or q is None else poly.compact(
                    poly.add(s, q))
            r = s and (s if o == 1 else poly.sqrt(s))
            if r:
                f["poly"] = r
        return V(E0, frozenset(("float",)), E0, lab, f)


def _red(name):
    def g(self, args, node, st):
        return self.reduced(name, args, node, st)
    return g


def _var(xs):
    m = sum(xs) / len(xs)
    return sum((x - m) ** 2 for x in xs) / len(xs)


def _median(xs):
    s, n = sorted(xs), len(xs)
    return float(s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2)


STATS = {"min": min, "amin": min, "max": max, "amax": max, "sum": sum,
         "mean": lambda xs: float(sum(xs)) / len(xs), "var": _var,
         "std": lambda xs: _var(xs) ** .5, "median": _median,
         "ptp": lambda xs: max(xs) - min(xs)}
for _n in ("sum", "mean", "min", "max", "amin", "amax", "any", "all",
           "prod", "median"):
    setattr(Grids, "g_" + _n, _red(_n))
