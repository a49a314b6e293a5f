"""Models of everything that is not repository code (part 1: core)."""
import ast
import re
import builtins as _b
import math

from . import domain as D, poly
from .domain import (
    BOOL, BOT, E0, FALSE, FLOAT, INT, NONE, STR, TRUE, UNK, Arr, Bound, Buf,
    Class, Const, Dict, Ext, ExtBound, File, Frame, Func, Ghost, Inst, Loc,
    Module, Opaque, Seq, State, Super, V, const, interval, join, join_states,
    joinall, obj, prim,
)
from .interp import GHOST, Args, Bottom, ExcInst, children
from .grid import Grids
from .nparr import Arrays
from .extlib import Libs

ITERABLE_PATHS = {
    "typing.Iterable", "collections.abc.Iterable", "typing.Sequence",
    "collections.abc.Sequence", "typing.Collection", "typing.Sized",
}
NUM = ("int", "float", "bool")
EXC_NAMES = {
    n for n in dir(_b)
    if isinstance(getattr(_b, n), type)
    and issubclass(getattr(_b, n), BaseException)
}
OPS = {
    ast.Add: ("__add__", "__radd__", "__iadd__"),
    ast.Sub: ("__sub__", "__rsub__", "__isub__"),
    ast.Mult: ("__mul__", "__rmul__", "__imul__"),
    ast.Div: ("__truediv__", "__rtruediv__", "__itruediv__"),
    ast.FloorDiv: ("__floordiv__", "__rfloordiv__", "__ifloordiv__"),
    ast.Mod: ("__mod__", "__rmod__", "__imod__"),
    ast.Pow: ("__pow__", "__rpow__", "__ipow__"),
    ast.MatMult: ("__matmul__", "__rmatmul__", "__imatmul__"),
    ast.BitAnd: ("__and__", "__rand__", "__iand__"),
    ast.BitOr: ("__or__", "__ror__", "__ior__"),
    ast.BitXor: ("__xor__", "__rxor__", "__ixor__"),
    ast.LShift: ("__lshift__", "__rlshift__", "__ilshift__"),
    ast.RShift: ("__rshift__", "__rrshift__", "__irshift__"),
}
CMPS = {
    ast.Lt: ("__lt__", "__gt__"), ast.Gt: ("__gt__", "__lt__"),
    ast.LtE: ("__le__", "__ge__"), ast.GtE: ("__ge__", "__le__"),
    ast.Eq: ("__eq__", "__eq__"), ast.NotEq: ("__ne__", "__ne__"),
}


def is_num_const(c):
    return isinstance(c, (int, float)) and not isinstance(c, bool)


class Extern(Grids, Arrays, Libs):
    def __init__(self, I):
        self.I = I
        self.unmodelled = {}

    # ---------------------------------------------------------- helpers
    def new(self, st, node, o, extra=None):
        return self.I.alloc(st, node, o, extra)

    def seq(self, st, node, typ, prefix=(), rest=None, space=None,
            extra=None):
        q = Seq(typ, prefix, rest, space)
        return obj(self.new(st, node, q, extra))

    def alts(self, v):
        """single-object alternatives of a value"""
        out = []
        if len(v.objs) == 1 and not v.prims and not v.consts:
            return [v]
        for o in v.objs:
            out.append(V(frozenset((o,)), lab=v.lab, f=v.f))
        if v.prims or v.consts:
            out.append(V(E0, v.prims, v.consts, v.lab, v.f))
        return out

    def heap(self, o, st):
        return st.heap.get(o) if isinstance(o, Loc) else None

    def raise_alt(self, exc, st):
        """an exception on one alternative only"""
        self.I.add_exc(("b", exc), st)

    def fallback(self, what, args, st):
        self.unmodelled[what] = self.unmodelled.get(what, 0) + 1
        labs = set()
        for a in args:
            labs |= self.I.deep_labels(a, st)
        return prim("unk", lab=frozenset(labs))

    def labs(self, vs, st, depth=4):
        out = set()
        for v in vs:
            out |= self.I.deep_labels(v, st, depth)
        return frozenset(out)

    def copy_seq(self, st, node, h, typ=None, extra=None, space=None):
        q = Seq(typ or h.typ, h.prefix, h.rest,
                h.space if space is None else space)
        return obj(self.new(st, node, q, extra))

    def builtin(self, name):
        return obj(Ext("builtins." + name))

    # ---------------------------------------------------------- iteration
    def iter_alts(self, v, st, node):
        out = []
        bad = False
        for a in self.alts(v):
            o = a.single()
            if o is None:
                c = a.consts
                handled = False
                for k in c:
                    if isinstance(k.v, str):
                        handled = True
                        if len(k.v) <= 24:
                            out.append(
                                ("str", [const(x, a.lab) for x in k.v],
                                 None, None))
                        else:
                            out.append(("str", [], STR.withlab(a.lab), None))
                    else:
                        bad = True
                for p in a.prims:
                    if p == "unk":
                        f = {k: x for k, x in a.f.items()
                             if k in ("ang", "role", "raw")}
                        out.append(
                            ("unk", [], V(E0, frozenset(("unk",)), E0,
                                          a.lab, f), None))
                    elif p in ("str", "bytes"):
                        out.append(("str", [], STR.withlab(a.lab), None))
                    else:
                        bad = True
                continue
            out.extend(self.iter_obj(o, a.lab, st, node))
        if not out:
            if bad:
                self.I.emit("iter-scalar", node, value=v, st=st)
                self.raise_alt("TypeError", st)
            raise Bottom()
        if bad:
            self.raise_alt("TypeError", st)
        return out

    def iter_obj(self, o, lab, st, node):
        if isinstance(o, Arr):
            return self.arr_iter(o, lab, st, node)
        h = self.heap(o, st)
        if isinstance(h, Seq):
            if h.typ == "slice":
                return []
            if h.rest is None and h.typ == "set" and len(h.prefix) > 1:
                e = h.elem().withlab(lab | {"setorder"})
                sp = h.space
                if sp is None and all(x.is_const() for x in h.prefix):
                    sp = ("bag", tuple(x.consts for x in h.prefix))
                return [("seq", [], e, sp)]
            l2 = lab | ({"setorder"} if h.typ == "set" else E0)
            pre = [x.withlab(l2) for x in h.prefix]
            rest = h.rest.withlab(l2) if h.rest is not None else None
            return [("seq", pre, rest, h.space)]
        if isinstance(h, Dict):
            sure = [self.keyval(k, st, lab) for k in h.items
                    if k not in h.maybe]
            may = [self.keyval(k, st, lab) for k in h.items
                   if k in h.maybe]
            rest = None
            if may or h.rk is not None:
                rest = joinall(may + ([h.rk.withlab(lab)]
                                      if h.rk is not None else []))
            return [("dict", sure, rest, ("keys", o))]
        if isinstance(h, Inst):
            if isinstance(h.tag, tuple) and h.tag and h.tag[0] == "nt":
                return [("seq", [h.fields[n].withlab(lab)
                                 for n in h.tag[1]], None, None)]
            val, c = self.I.class_attr(h.cls, "__iter__", st)
            if val is not None:
                r = self.I.call(self.I.bind(val, o, st, node, c), Args(),
                                node, st)
                if r.single() == o:
                    val, c = self.I.class_attr(h.cls, "__next__", st)
                    if val is not None:
                        r = self.I.call(self.I.bind(val, o, st, node, c),
                                        Args(), node, st)
                        return [("iter", [], r.withlab(lab), None)]
                return [(k, [x.withlab(lab) for x in p],
                         r2.withlab(lab) if r2 is not None else None, s)
                        for k, p, r2, s in self.iter_alts(r, st, node)]
            val, c = self.I.class_attr(h.cls, "__getitem__", st)
            if val is not None:
                try:
                    r = self.I.call(self.I.bind(val, o, st, node, c),
                                    Args([INT]), node, st)
                except Bottom:
                    return []
                return [("iter", [], r.withlab(lab), None)]
            val, c = self.I.class_attr(h.cls, "__next__", st)
            if val is None and not self.I.ext_bases_unknown(h.cls, st):
                self.I.emit("not-iterable", node, loc=o, st=st)
                self.raise_alt("TypeError", st)
                return []
            return [("unk", [], UNK.withlab(lab), None)]
        if isinstance(h, Class) and h.flavour == "enum":
            ms = [v for v in h.fields.values()
                  if any(isinstance(st.heap.get(x), Inst)
                         for x in v.objs if isinstance(x, Loc))]
            return [("seq", ms, None, None)]
        if isinstance(h, File):
            return [self.file_iter(o, h, lab, st, node)]
        if isinstance(h, Opaque):
            fn = getattr(h.contract, "iter", None)
            if fn is not None:
                return [fn(self.I, o, h, st, node)]
            return [("unk", [], UNK.withlab(
                lab | self.I._obj_labels(o, st, 3, set())), None)]
        if isinstance(h, (Func, Module)):
            self.raise_alt("TypeError", st)
            return []
        return [("unk", [], UNK.withlab(lab), None)]

    def elements(self, v, st, node):
        """joined element value and (exact prefix or None)"""
        es = []
        pre = None
        al = self.iter_alts(v, st, node)
        for k, p, r, s in al:
            es += list(p)
            if r is not None:
                es.append(r)
        if len(al) == 1 and al[0][2] is None:
            pre = list(al[0][1])
        return joinall(es), pre, (al[0][3] if len(al) == 1 else None)

    # ---------------------------------------------------------- dicts
    def tkey(self, k, st):
        """a tuple of constants as one constant key"""
        o = k.single()
        h = st.heap.get(o) if isinstance(o, Loc) else None
        if isinstance(h, Seq) and h.typ == "tuple" and h.rest is None and \
                all(x.is_const() for x in h.prefix):
            return const(TKey(x.const() for x in h.prefix), k.lab)
        return k

    def keyval(self, k, st, lab=E0, extra=None):
        """value of a key of a dictionary"""
        if isinstance(k.v, TKey):
            return self.seq(st, KEYNODE, "tuple", [const(x) for x in k.v],
                            extra=("tkey", k)).withlab(lab)
        return V(consts=frozenset((k,)), lab=lab)

    def dict_put(self, d, k, v, weak=False, st=None):
        if st is not None:
            k = self.tkey(k, st)
        ks = [c for c in k.consts]
        if k.only_consts() and all(
            not isinstance(c.v, float) or True for c in ks
        ):
            if len(ks) == 1 and not weak:
                d.items[ks[0]] = v
                d.maybe = d.maybe - {ks[0]}
            else:
                for c in ks:
                    if c in d.items:
                        d.items[c] = join(d.items[c], v)
                    else:
                        d.items[c] = v
                        d.maybe = d.maybe | {c}
            if d.rk is not None and d.rv is not None and False:
                pass
            return
        # unknown key: may overwrite any entry
        for c in list(d.items):
            d.items[c] = join(d.items[c], v)
        d.rk = k if d.rk is None else join(d.rk, k)
        d.rv = v if d.rv is None else join(d.rv, v)

    def dict_merge(self, d, h):
        n = d.clone()
        for c, v in h.items.items():
            if c in h.maybe:
                if c in n.items:
                    n.items[c] = join(n.items[c], v)
                else:
                    n.items[c] = v
                    n.maybe = n.maybe | {c}
            else:
                n.items[c] = v
                n.maybe = n.maybe - {c}
        if h.rk is not None:
            for c in list(n.items):
                if c not in h.items:
                    n.items[c] = join(n.items[c], h.rv)
            n.rk = h.rk if n.rk is None else join(n.rk, h.rk)
            n.rv = h.rv if n.rv is None else join(n.rv, h.rv)
        return n

    def comp_keyspace(self, n, st, filtered):
        return None

    # ---------------------------------------------------------- subscripts
    def getitem(self, v, idx, st, node):
        def one(a, st):
            o = a.single()
            if o is None:
                if a.prims or a.consts:
                    return self.prim_getitem(a, idx, st, node)
                return None
            r = self.obj_getitem(o, a, idx, st, node)
            return r.withlab(a.lab) if r is not None else None
        al = self.alts(v)
        if len(v.objs) > 1:
            outs = self.I.forks(al, st, one)
        else:
            outs = [one(a, st) for a in al]
        outs = [x for x in outs if x is not None]
        if not outs:
            raise Bottom()
        return joinall(outs)

    def prim_getitem(self, a, idx, st, node):
        if a.only_consts():
            strs = [c.v for c in a.consts if isinstance(c.v, str)]
            if strs:
                outs = []
                for s in strs:
                    try:
                        k = self.const_index(idx, st)
                        outs.append(const(s[k], a.lab))
                    except LookupError:
                        outs.append(STR.withlab(a.lab))
                    except (IndexError, TypeError):
                        self.raise_alt("IndexError", st)
                return joinall(outs) if outs else None
            if all(c.v is None for c in a.consts):
                self.I.emit("getitem-none", node, st=st)
            self.raise_alt("TypeError", st)
            return None
        self.I.may_raise(st)
        if a.prims <= {"str", "bytes", "none"}:
            return STR.withlab(a.lab)
        if a.prims <= {"int", "float", "bool", "none"} :
            self.raise_alt("TypeError", st)
            return None
        return prim("unk", lab=a.lab | self.I.deep_labels(idx, st, 2))

    def const_index(self, idx, st):
        """python index object for constant indices / slices"""
        if idx.is_const():
            return idx.const()
        o = idx.single()
        h = self.heap(o, st)
        if isinstance(h, Seq) and h.typ == "slice":
            return slice(*[x.const() for x in h.prefix])
        raise LookupError

    def obj_getitem(self, o, a, idx, st, node):
        if isinstance(o, Arr):
            return self.arr_getitem(o, idx, st, node)
        h = self.heap(o, st)
        if isinstance(h, Seq):
            return self.seq_getitem(o, h, idx, st, node)
        if isinstance(h, Dict):
            return self.dict_getitem(o, h, idx, st, node)
        if isinstance(h, Inst):
            if isinstance(h.tag, tuple) and h.tag and h.tag[0] == "nt":
                vals = [h.fields[n] for n in h.tag[1]]
                try:
                    k = self.const_index(idx, st)
                    r = vals[k]
                    if isinstance(k, slice):
                        return self.seq(st, node, "tuple", r)
                    return r
                except LookupError:
                    return joinall(vals)
            val, c = self.I.class_attr(h.cls, "__getitem__", st)
            if val is not None:
                return self.I.call(self.I.bind(val, o, st, node, c),
                                   Args([idx]), node, st)
            self.raise_alt("TypeError", st)
            return None
        if isinstance(h, Class):
            if h.flavour == "enum":
                if idx.is_const():
                    r = h.fields.get(idx.const())
                    if r is not None:
                        return r
                return joinall(
                    [v for v in h.fields.values()
                     if any(isinstance(st.heap.get(x), Inst)
                            for x in v.objs if isinstance(x, Loc))], UNK)
            return obj(o)  # generic alias
        if isinstance(h, Opaque):
            fn = getattr(h.contract, "getitem", None)
            if fn is not None:
                return fn(self.I, o, h, idx, st, node)
            self.I.may_raise(st)
            return prim("unk", lab=self.I._obj_labels(o, st, 3, set()))
        if isinstance(o, Ext):
            return obj(o)
        if isinstance(o, (Bound, ExtBound)) or isinstance(h, Func):
            if isinstance(o, ExtBound):
                return UNK
            self.raise_alt("TypeError", st)
            return None
        return UNK

    def seq_getitem(self, o, h, idx, st, node):
        if h.typ in ("set", "iter"):
            self.raise_alt("TypeError", st)
            return None
        lab = self.I.deep_labels(idx, st, 1)
        try:
            k = self.const_index(idx, st)
        except LookupError:
            k = None
            ho = idx.single()
            hh = self.heap(ho, st)
            if isinstance(hh, Seq) and hh.typ == "slice":
                self.I.may_raise(st)
                es = h.elem()
                sp = ("slice", h.space, hh.prefix) if h.space else None
                return self.seq(st, node, h.typ, (), es, sp)
            if isinstance(ho, Arr) or (isinstance(hh, Seq)):
                self.raise_alt("TypeError", st)
                return None
            self.I.may_raise(st)
            if not h.prefix and h.rest is None:
                self.raise_alt("IndexError", st)
                return None
            if h.space is not None and "ix" in idx.f:
                self.I.emit("index", node, space=h.space,
                            ix=idx.f["ix"], st=st)
            self.I.emit("seq-index", node, loc=o, idx=idx, st=st)
            return h.elem().withlab(lab)
        if isinstance(k, slice):
            n = len(h.prefix)
            if h.rest is None:
                try:
                    pre = h.prefix[k]
                except (TypeError, ValueError):
                    pre = h.prefix
                sp = h.space
                if (k.start, k.stop, k.step) != (None, None, None):
                    sp = ("slice", h.space, (k.start, k.stop, k.step)) \
                        if h.space else None
                return self.seq(st, node, h.typ, pre, None, sp)
            if (k.start, k.stop, k.step) == (None, None, None):
                return self.copy_seq(st, node, h)
            sp = ("slice", h.space, (k.start, k.stop, k.step)) \
                if h.space else None
            if k.step in (None, 1) and (k.start or 0) >= 0 and isinstance(
                k.start or 0, int
            ):
                s0 = k.start or 0
                if k.stop is None:
                    rs = h.extra[-1] if isinstance(h.extra, tuple) and \
                        h.extra and h.extra[0] == "restspace" else None
                    if rs is not None and s0 == n:
                        sp = rs
                    r = self.seq(st, node, h.typ, h.prefix[s0:], h.rest,
                                 sp)
                    if rs is not None and s0 < n:
                        st.edit(r.single()).extra = ("restspace", rs)
                    return r
                if isinstance(k.stop, int) and 0 <= k.stop <= n:
                    return self.seq(st, node, h.typ, h.prefix[s0:k.stop],
                                    None, sp)
            return self.seq(st, node, h.typ, (), h.elem(), sp)
        if isinstance(k, bool) or not isinstance(k, int):
            if isinstance(k, bool):
                k = int(k)
            else:
                self.raise_alt("TypeError", st)
                return None
        if h.rest is None:
            if -len(h.prefix) <= k < len(h.prefix):
                return h.prefix[k].withlab(lab)
            self.raise_alt("IndexError", st)
            return None
        if 0 <= k < len(h.prefix):
            return h.prefix[k].withlab(lab)
        self.I.may_raise(st)
        self.I.emit("seq-index", node, loc=o, idx=idx, st=st)
        if k == -1 or k < 0:
            last = [h.rest]
            if k < -1 or h.rest.bottom():
                last += list(h.prefix)
            else:
                last += list(h.prefix[-1:])
            return joinall(last).withlab(lab)
        return h.rest.withlab(lab)

    def dict_getitem(self, o, h, idx, st, node, missing=True):
        lab = self.I.deep_labels(idx, st, 1)
        self.I.emit("dict-read", node, loc=o, key=idx, st=st)
        idx = self.tkey(idx, st)
        if idx.only_consts():
            outs = []
            for c in idx.consts:
                if c in h.items:
                    outs.append(h.items[c])
                    if c in h.maybe:
                        if h.rv is not None:
                            outs.append(h.rv)
                        self.I.may_raise(st)
                        if missing:
                            self.maybe_key_error(st)
                elif h.rv is not None and self.key_may(h.rk, c):
                    outs.append(h.rv)
                    self.I.may_raise(st)
                    if missing:
                        self.maybe_key_error(st)
                elif missing:
                    self.raise_alt("KeyError", st)
            if not outs:
                return None
            return joinall(outs).withlab(lab)
        # inst / enum keys
        self.I.may_raise(st)
        if missing:
            self.maybe_key_error(st)
        outs = list(h.items.values())
        if h.rv is not None:
            outs.append(h.rv)
        if not outs:
            if missing:
                self.raise_alt("KeyError", st)
            return None
        return joinall(outs).withlab(lab)

    def maybe_key_error(self, st):
        if self.I.want_implicit:
            self.raise_alt("KeyError", st)

    def key_may(self, rk, c):
        if rk is None:
            return False
        if rk.prims & {"unk", "str", "int", "float"} or rk.objs:
            k = D.kind_of_const(c.v)
            return "unk" in rk.prims or k in rk.prims or bool(rk.objs) or \
                c in rk.consts
        return c in rk.consts

    def setitem(self, v, idx, val, st, node):
        many = len(v.objs) > 1
        for a in self.alts(v):
            o = a.single()
            if o is None:
                self.I.may_raise(st)
                continue
            if isinstance(o, Arr):
                self.arr_setitem(o, idx, val, st, node, many)
                continue
            h = self.heap(o, st)
            if isinstance(h, Seq):
                if h.typ == "tuple":
                    self.raise_alt("TypeError", st)
                    continue
                self.I.emit("write", node, loc=o, what="[...]", field=None,
                            value=val, st=st, old=h)
                n = st.edit(o)
                try:
                    k = self.const_index(idx, st)
                    if isinstance(k, slice):
                        raise LookupError
                    if n.rest is None and not (
                        -len(n.prefix) <= k < len(n.prefix)
                    ):
                        self.raise_alt("IndexError", st)
                        if not many:
                            raise Bottom()
                        continue
                    if -len(n.prefix) <= k < len(n.prefix) and (
                        n.rest is None or k >= 0
                    ):
                        pre = list(n.prefix)
                        pre[k] = join(pre[k], val) if (
                            many or n.multi) else val
                        n.prefix = tuple(pre)
                    else:
                        n.prefix = tuple(n.prefix)
                        n.rest = join(n.rest or BOT, val)
                except LookupError:
                    si = idx.single()
                    sh = self.heap(si, st)
                    if isinstance(sh, Seq) and sh.typ == "slice":
                        e, _, _ = self.elements(val, st, node)
                        allv = joinall(list(n.prefix) + [n.rest or BOT, e])
                        n.prefix = ()
                        n.rest = allv
                        n.space = None
                    else:
                        n.prefix = tuple(join(x, val) for x in n.prefix)
                        if n.rest is not None:
                            n.rest = join(n.rest, val)
            elif isinstance(h, Dict):
                self.I.emit("write", node, loc=o, what="[...]", field=None,
                            value=val, st=st, old=h, key=idx)
                n = st.edit(o)
                self.dict_put(n, idx, val, weak=many or n.multi, st=st)
                n.ks = None
                n.space = None
            elif isinstance(h, Inst):
                m, c = self.I.class_attr(h.cls, "__setitem__", st)
                if m is not None:
                    self.I.call(self.I.bind(m, o, st, node, c),
                                Args([idx, val]), node, st)
                else:
                    self.raise_alt("TypeError", st)
            elif isinstance(h, Opaque):
                fn = getattr(h.contract, "setitem", None)
                if fn is not None:
                    fn(self.I, o, h, idx, val, st, node)
                else:
                    self.I.emit("write", node, loc=o, what="[...]",
                                field=None, value=val, st=st, old=h)

    def delitem(self, v, idx, st, node):
        many = len(v.objs) > 1
        for a in self.alts(v):
            o = a.single()
            h = self.heap(o, st) if o is not None else None
            if isinstance(h, Seq):
                self.I.emit("write", node, loc=o, what="del [...]",
                            field=None, value=BOT, st=st, old=h)
                n = st.edit(o)
                try:
                    k = self.const_index(idx, st)
                    pre = list(n.prefix)
                    if n.rest is not None or many or n.multi:
                        raise LookupError
                    del pre[k]
                    n.prefix = tuple(pre)
                except (LookupError, IndexError):
                    e = n.elem()
                    n.prefix = ()
                    n.rest = e
                n.space = None
            elif isinstance(h, Dict):
                self.I.emit("write", node, loc=o, what="del [...]",
                            field=None, value=BOT, st=st, old=h, key=idx)
                n = st.edit(o)
                idx = self.tkey(idx, st)
                if idx.is_const() and not many and not n.multi:
                    k = Const(idx.const())
                    if k not in n.items and not self.key_may(n.rk, k):
                        self.raise_alt("KeyError", st)
                        raise Bottom()
                    n.items.pop(k, None)
                    n.maybe = n.maybe - {k}
                else:
                    n.maybe = frozenset(n.items)
                n.ks = None
                n.space = None
            elif isinstance(h, Inst):
                m, c = self.I.class_attr(h.cls, "__delitem__", st)
                if m is not None:
                    self.I.call(self.I.bind(m, o, st, node, c), Args([idx]),
                                node, st)

    # ---------------------------------------------------------- operators
    def unary(self, op, v, st, node):
        outs = []
        for a in self.alts(v):
            o = a.single()
            if o is None:
                outs.append(self.scalar_unary(op, a, st))
            elif isinstance(o, Arr):
                r = self.elementwise(
                    lambda x: self.scalar_unary(op, x, st), [a], st, node)
                if isinstance(op, ast.Invert):
                    r = self.invert_mask(o, a, r, st)
                outs.append(r)
            else:
                h = self.heap(o, st)
                nm = {ast.USub: "__neg__", ast.Invert: "__invert__",
                      ast.UAdd: "__pos__"}.get(type(op))
                if isinstance(h, Inst) and nm:
                    val, c = self.I.class_attr(h.cls, nm, st)
                    if val is not None:
                        outs.append(self.I.call(
                            self.I.bind(val, o, st, node, c), Args(), node,
                            st))
                        continue
                if isinstance(h, Opaque):
                    fn = getattr(h.contract, "unary", None)
                    outs.append(fn(self.I, o, h, op, st, node) if fn
                                else UNK)
                    continue
                self.raise_alt("TypeError", st)
        if not outs:
            raise Bottom()
        return joinall(outs)

    def scalar_unary(self, op, a, st):
        if a.bottom():
            return a
        if a.is_const():
            c = a.const()
            try:
                r = {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x,
                     # truths are numpy truths
                     ast.Invert: lambda x: not x if isinstance(
                         x, bool) else ~x,
                     ast.Not: lambda x: not x}[type(op)](c)
                return V(consts=frozenset((Const(r),)), lab=a.lab,
                         f={k: x for k, x in a.f.items()
                            if k in ("ang", "role", "raw")})
            except Exception:
                pass
        f = {k: x for k, x in a.f.items() if k in ("ang", "raw", "z")}
        if isinstance(op, ast.USub):
            f["raw"] = bool(a.f.get("raw")) or ("ang" in a.f)
            if not f["raw"]:
                f.pop("raw")
            if "iv" in a.f:
                lo, hi, lx, hx = a.f["iv"]
                f["iv"] = (-hi, -lo, hx, lx)
            if "role" in a.f:
                f["role"] = a.f["role"]
            if "poly" in a.f:
                f["poly"] = poly.neg(a.f["poly"])
        elif isinstance(op, ast.UAdd):
            f = dict(a.f)
        elif isinstance(op, ast.Invert):
            f = {}
            if a.prims <= {"bool"} and not a.consts:
                return self.negated(a)
        prims = a.prims
        if a.consts:
            prims = prims | {D.kind_of_const(c.v) for c in a.consts}
        return V(E0, prims or frozenset(("unk",)), E0, a.lab, f)

    def negated(self, a):
        f = {}
        if "poly" in a.f:
            f["poly"] = poly.add((((), 1.0),), a.f["poly"], -1.0)
        return V(E0, frozenset(("bool",)), E0, a.lab, f)

    def connected(self, t, a, b):
        """form of the truth of `a and b`, `a or b`, `a != b`"""
        if "poly" not in a.f and "poly" not in b.f:
            return {}
        p, q = poly.of(a), poly.of(b)
        if not all(v.is_const() or v.prims == {"bool"} and not v.consts
                   for v in (a, b)) or p is None or q is None:
            return {}
        r = poly.mul(p, q)
        if r is not None and t is not ast.BitAnd:
            r = poly.add(poly.add(p, q), poly.mul(
                r, (((), 1.0 if t is ast.BitOr else 2.0),)), -1.0)
        return {"poly": r} if r is not None else {}

    def binop(self, op, a, b, st, node):
        outs = []
        A, B = self.alts(a), self.alts(b)
        if a.bottom() or b.bottom():
            return BOT.withlab(a.lab | b.lab)
        if len(a.objs) > 1 or len(b.objs) > 1:
            outs = self.I.forks(
                [(x, y) for x in A for y in B], st,
                lambda p, s: self.binop1(op, p[0], p[1], s, node))
        else:
            for x in A:
                for y in B:
                    r = self.binop1(op, x, y, st, node)
                    if r is not None:
                        outs.append(r)
        if not outs:
            raise Bottom()
        return joinall(outs)

    def is_arrayish(self, o, st):
        return isinstance(o, Arr)

    def binop1(self, op, x, y, st, node):
        ox, oy = x.single(), y.single()
        if ox is None and oy is None:
            return self.scalar_binop(op, x, y, st, node)
        hx, hy = self.heap(ox, st), self.heap(oy, st)
        lab = x.lab | y.lab
        # user defined operators first
        if isinstance(hx, (Inst, Opaque)) or isinstance(hy, (Inst, Opaque)):
            r = self.user_binop(op, x, y, ox, oy, hx, hy, st, node)
            return r
        if isinstance(ox, Arr) or isinstance(oy, Arr):
            if isinstance(op, ast.MatMult):
                return self.np_dot(x, y, st, node)
            return self.elementwise(
                lambda p, q: self.np_binop(op, p, q, st, node),
                [x, y], st, node, op=op)
        if isinstance(op, ast.Add) and isinstance(hx, Seq) and isinstance(
            hy, Seq
        ):
            if hx.typ != hy.typ:
                self.raise_alt("TypeError", st)
                return None
            if hx.rest is None:
                q = Seq(hx.typ, hx.prefix + hy.prefix, hy.rest)
                if not hx.prefix:
                    q.space = hy.space
                elif hx.space is None and hy.space is not None:
                    q.extra = ("restspace", hy.space)
                if hy.rest is None and not hy.prefix:
                    q.space = hx.space
            else:
                q = Seq(hx.typ, hx.prefix,
                        joinall([hx.rest, hy.elem()]))
                if hy.rest is None and not hy.prefix:
                    q.space = hx.space
            return obj(self.new(st, node, q), lab)
        if isinstance(op, ast.Mult) and (
            isinstance(hx, Seq) or isinstance(hy, Seq)
        ):
            h, n = (hx, y) if isinstance(hx, Seq) else (hy, x)
            if n.is_const() and isinstance(n.const(), int) and \
                    h.rest is None and n.const() * len(h.prefix) <= 64:
                return obj(self.new(
                    st, node, Seq(h.typ, h.prefix * n.const())), lab)
            sp = n.f.get("dim") if len(h.prefix) == 1 else None
            return obj(self.new(
                st, node, Seq(h.typ, (), h.elem(), sp)), lab)
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            if isinstance(hx, Dict) and isinstance(hy, Dict):
                return obj(self.new(st, node, self.dict_merge(
                    self.fresh_dict(hx), hy)), lab)
            if isinstance(hx, Seq) and hx.typ == "set" or isinstance(
                hy, Seq
            ) and hy.typ == "set":
                if not (isinstance(hx, Seq) and isinstance(hy, Seq)):
                    if hx is None and ox is None and "unk" not in x.prims \
                            or hy is None and oy is None and "unk" not in \
                            y.prims:
                        self.raise_alt("TypeError", st)
                        return None
                r = self.const_sets(op, hx, hy, st, node)
                if r is not None:
                    return r.withlab(lab)
                es = []
                if isinstance(hx, Seq):
                    es.append(hx.elem())
                if isinstance(hy, Seq) and not isinstance(op, ast.Sub):
                    es.append(hy.elem())
                return obj(self.new(
                    st, node, Seq("set", (), joinall(es))), lab)
        if isinstance(op, ast.Mod) and ox is None and (
            "str" in x.prims or any(isinstance(c.v, str) for c in x.consts)
        ):
            return STR.withlab(self.labs([x, y], st))
        # list op number, etc.
        unk = (ox is None and "unk" in x.prims) or (
            oy is None and "unk" in y.prims)
        if unk or isinstance(ox, (Ext, ExtBound)) or isinstance(
            oy, (Ext, ExtBound)
        ):
            if isinstance(op, ast.BitOr) and (
                isinstance(ox, Ext) or isinstance(oy, Ext)
            ):
                return obj(Ext("types.UnionType"))
            self.I.may_raise(st)
            return prim("unk", lab=self.labs([x, y], st))
        if isinstance(hx, Class) or isinstance(hy, Class):
            if isinstance(op, ast.BitOr):
                return obj(Ext("types.UnionType"))
        self.I.emit("bad-operand", node, left=x, right=y, op=op, st=st)
        self.raise_alt("TypeError", st)
        return None

    def fresh_dict(self, h):
        d = h.clone()
        d.multi = False
        return d

    def user_binop(self, op, x, y, ox, oy, hx, hy, st, node):
        ln, rn, _ = OPS[type(op)]
        if isinstance(hx, Opaque):
            fn = getattr(hx.contract, "binop", None)
            if fn is not None:
                return fn(self.I, ox, hx, op, y, False, st, node)
        if isinstance(hx, Inst):
            val, c = self.I.class_attr(hx.cls, ln, st)
            if val is not None:
                return self.I.call(self.I.bind(val, ox, st, node, c),
                                   Args([y]), node, st)
            if isinstance(hx.tag, tuple) and hx.tag[:1] == ("nt",):
                return UNK
        if isinstance(hy, Opaque):
            fn = getattr(hy.contract, "binop", None)
            if fn is not None:
                return fn(self.I, oy, hy, op, x, True, st, node)
        if isinstance(hy, Inst):
            if isinstance(ox, Arr):
                # numpy would broadcast the operator over its elements
                val, c = self.I.class_attr(hy.cls, rn, st)
                if val is None:
                    self.raise_alt("TypeError", st)
                    return None
            val, c = self.I.class_attr(hy.cls, rn, st)
            if val is not None:
                return self.I.call(self.I.bind(val, oy, st, node, c),
                                   Args([x]), node, st)
        if isinstance(hx, Opaque) or isinstance(hy, Opaque):
            self.I.may_raise(st)
            return prim("unk", lab=self.labs([x, y], st))
        if (isinstance(hx, Inst) and self.I.ext_bases_unknown(hx.cls, st)) or (
            isinstance(hy, Inst) and self.I.ext_bases_unknown(hy.cls, st)
        ):
            self.I.may_raise(st)
            return prim("unk", lab=self.labs([x, y], st))
        if ("unk" in x.prims or "unk" in y.prims):
            self.I.may_raise(st)
            return prim("unk", lab=self.labs([x, y], st))
        self.I.emit("bad-operand", node, left=x, right=y, op=op, st=st)
        self.raise_alt("TypeError", st)
        return None

    # arithmetic on elements of arrays: dividing by zero gives inf or nan
    npdiv = False

    def np_binop(self, op, a, b, st, node):
        was, self.npdiv = self.npdiv, True
        try:
            return self.scalar_binop(op, a, b, st, node)
        finally:
            self.npdiv = was

    def np_fold(self, t, p, q):
        if t in (ast.Mod, ast.FloorDiv):
            return None if isinstance(p, int) and isinstance(q, int) else \
                float("nan")
        if p == 0 or p != p:
            return float("nan")
        return math.copysign(1, p) * math.copysign(1, q) * float("inf")

    # scalar arithmetic with facets
    def scalar_binop(self, op, a, b, st, node):
        if a.bottom() or b.bottom():
            return BOT
        lab = a.lab | b.lab
        if a.objs or b.objs:
            # objects inside arrays or joined values
            if not (a.prims or a.consts) or not (b.prims or b.consts):
                return self.binop(op, a, b, st, node)
        t = type(op)
        if a.only_consts() and b.only_consts() and len(a.consts) * len(
            b.consts
        ) <= 16:
            outs = set()
            fl = set()
            for p in a.consts:
                for q in b.consts:
                    r = self.fold(t, p.v, q.v, st)
                    if r is _ZERODIV and self.npdiv and t is not ast.Pow:
                        r = self.np_fold(t, p.v, q.v)
                    if r is _TYPEERR:
                        self.I.emit("bad-operand", node, left=a, right=b,
                                    op=op, st=st)
                        self.raise_alt("TypeError", st)
                        continue
                    if r is _ZERODIV:
                        self.raise_alt("ZeroDivisionError", st)
                        continue
                    if r is None:
                        fl.add("unk")
                    else:
                        outs.add(Const(r))
            if not outs and not fl:
                return None
            if len(outs) > D.MAXCONST:
                fl |= {D.kind_of_const(c.v) for c in outs}
                outs = set()
            f = self.facets(t, a, b, st, node)
            f.pop("iv", None)
            return V(E0, frozenset(fl), frozenset(outs), lab, f)
        ka, kb = self.kinds(a), self.kinds(b)
        if t is not ast.Pow and ka | kb <= {"int", "float"} and any(
                x.is_const() and x.const() != x.const() for x in (a, b)):
            return V(E0, E0, frozenset((Const(float("nan")),)), lab, {})
        # strings
        if t is ast.Add and ka & {"str"} and kb & {"str"}:
            return V(E0, frozenset(("str",)), E0, lab, self.pcat([a, b]))
        if t is ast.Mod and ka & {"str"}:
            c = a.const() if a.is_const() else None
            m = re.fullmatch(r"%([-+0 #]*\d*(?:\.\d+)?[a-zA-Z])", c) \
                if isinstance(c, str) else None
            if m and not b.objs and not b.is_const():
                return self.formatted(b, m.group(1), st)
            return V(E0, frozenset(("str",)), E0, lab, {})
        if t is ast.Mult and (ka == {"str"} or kb == {"str"}):
            return V(E0, frozenset(("str",)), E0, lab, {})
        definite_bad = False
        if not (ka & {"unk"}) and not (kb & {"unk"}):
            if "none" in ka or "none" in kb:
                self.I.may_raise(st)
                if ka == {"none"} or kb == {"none"}:
                    definite_bad = True
            if (ka == {"str"}) != (kb == {"str"}) and t in (
                ast.Add, ast.Sub, ast.Div
            ):
                definite_bad = True
        if definite_bad:
            self.I.emit("bad-operand", node, left=a, right=b, op=op, st=st)
            self.raise_alt("TypeError", st)
            return None
        # dates
        if ka & {"datetime", "timedelta", "date"} or kb & {
            "datetime", "timedelta", "date"
        }:
            f = {}
            if t is ast.Sub and ka & {"datetime"} and kb & {"datetime"}:
                if a.f.get("iv") and b.f.get("iv"):
                    f["iv"] = self.iv_op(t, a.f["iv"], b.f["iv"])
                return V(E0, frozenset(("timedelta",)), E0, lab, _nn(f))
            if t in (ast.Add, ast.Sub) and (ka | kb) & {"datetime"}:
                if a.f.get("iv") and b.f.get("iv"):
                    f["iv"] = self.iv_op(t, a.f["iv"], b.f["iv"])
                if a.f.get("role"):
                    f["role"] = a.f["role"]
                return V(E0, frozenset(("datetime",)), E0, lab, _nn(f))
            if t is ast.Div and ka & {"timedelta"} and kb & {"timedelta"}:
                return V(E0, frozenset(("float",)), E0, lab, {})
            if "unk" not in ka | kb:
                return V(E0, frozenset(("timedelta",)), E0, lab, {})
        if t in (ast.BitAnd, ast.BitOr, ast.BitXor):
            if ka <= {"bool"} and kb <= {"bool"}:
                return V(E0, frozenset(("bool",)), E0, lab,
                         self.connected(t, a, b))
        if "unk" in ka | kb:
            self.I.may_raise(st)
        if t is ast.Sub and self.I.grids and "poly" in a.f and a.f[
                "poly"] == b.f.get("poly") and ka | kb <= {"int", "float"}:
            return const(0.0, lab)
        f = self.facets(t, a, b, st, node)
        k = set()
        if "unk" in ka or "unk" in kb:
            k.add("unk")
        elif t is ast.Div or "float" in ka | kb:
            k.add("float")
        elif "unk" not in ka | kb:
            k.add("int")
        if t in (ast.Div, ast.FloorDiv, ast.Mod):
            iv = interval(b)
            if iv is None or (iv[0] <= 0 <= iv[1] and not (
                iv[0] == 0 and iv[2]) and not (iv[1] == 0 and iv[3])):
                if self.I.want_implicit:
                    self.raise_alt("ZeroDivisionError", st)
            if b.f.get("z"):
                self.I.emit("div-zero", node, z=b.f["z"], st=st)
        return V(E0, frozenset(k), E0, lab, f)

    def kinds(self, v):
        return set(v.prims) | {D.kind_of_const(c.v) for c in v.consts}

    def fold(self, t, p, q, st):
        try:
            if t is ast.Add:
                return p + q
            if t is ast.Sub:
                return p - q
            if t is ast.Mult:
                if isinstance(p, str) and isinstance(q, int) and q > 200:
                    return None
                return p * q
            if t is ast.Div:
                return p / q
            if t is ast.FloorDiv:
                return p // q
            if t is ast.Mod:
                return p % q
            if t is ast.Pow:
                if abs(q) > 64:
                    return None
                r = p ** q
                return r if isinstance(r, (int, float)) else None
            if t is ast.BitAnd:
                return p & q
            if t is ast.BitOr:
                return p | q
            if t is ast.BitXor:
                return p ^ q
        except ZeroDivisionError:
            return _ZERODIV
        except TypeError:
            return _TYPEERR
        except Exception:
            return None
        return None

    def iv_op(self, t, x, y):
        if t is ast.Add:
            return (x[0] + y[0], x[1] + y[1], x[2] or y[2], x[3] or y[3])
        if t is ast.Sub:
            return (x[0] - y[1], x[1] - y[0], x[2] or y[3], x[3] or y[2])
        if t is ast.Mult:
            c = []
            for p in (x[0], x[1]):
                for q in (y[0], y[1]):
                    m = p * q
                    if m != m:
                        return None
                    c.append(m)
            op = x[2] or x[3] or y[2] or y[3]
            lo, hi = min(c), max(c)
            # open ends only matter when the bound itself is excluded
            return (lo, hi, bool(op and lo != 0 and False), False) \
                if not (x[0] > 0 or (x[0] == 0 and x[2])) or not (
                    y[0] > 0 or (y[0] == 0 and y[2])) else (
                        lo, hi, lo == 0, False)
        if t is ast.Div:
            if y[0] > 0 or (y[0] == 0 and y[2]):
                lo, hi = float("-inf"), float("inf")
                if y[0] > 0 and y[1] < float("inf") and abs(
                    x[0]) < float("inf") and abs(x[1]) < float("inf"):
                    c = [x[0] / y[0], x[0] / y[1], x[1] / y[0], x[1] / y[1]]
                    lo, hi = min(c), max(c)
                if x[0] > 0 or (x[0] == 0 and x[2]):
                    return (max(lo, 0.0), hi, lo <= 0, False)
                if x[0] >= 0:
                    return (max(lo, 0.0), hi, False, False)
                return (lo, hi, False, False)
        return None

    def facets(self, t, a, b, st, node):
        f = {}
        xa, xb = interval(a), interval(b)
        if xa is not None and xb is not None:
            r = self.iv_op(t, xa, xb)
            if r is not None and r[0] == r[0] and r[1] == r[1]:
                f["iv"] = r
        self.ang_facets(t, a, b, f, st, node)
        ra, rb = a.f.get("role"), b.f.get("role")
        if t in (ast.Add, ast.Sub):
            if ra is not None and rb is not None:
                if ra == rb:
                    f["role"] = ra
                else:
                    self.I.emit("role-mix", node, a=ra, b=rb, op=t, st=st)
            elif ra is not None and (b.only_consts() or self.neutral(b)):
                f["role"] = ra
            elif rb is not None and (a.only_consts() or self.neutral(a)):
                f["role"] = rb
        elif t in (ast.Mult,):
            if ra is not None and rb is None and (
                b.only_consts() or self.neutral(b)):
                f["role"] = ra
            elif rb is not None and ra is None and (
                a.only_consts() or self.neutral(a)):
                f["role"] = rb
        elif t in (ast.Div, ast.Mod, ast.FloorDiv):
            if ra is not None and (b.only_consts() or self.neutral(b)):
                f["role"] = ra
        if "role" in f and (
            a.f.get("trunc") and b.only_consts()
            or b.f.get("trunc") and a.only_consts()
        ):
            f["trunc"] = True
        z = set()
        if t in (ast.Mult,):
            z = set(a.f.get("z", ())) | set(b.f.get("z", ()))
        elif t in (ast.Div,):
            z = set(a.f.get("z", ()))
        elif t is ast.Pow:
            z = set(a.f.get("z", ()))
        if z:
            f["z"] = frozenset(z)
        if t in (ast.Add, ast.Sub) and "dim" in a.f and b.only_consts():
            f["dimoff"] = a.f["dim"]
        if "poly" in a.f or "poly" in b.f:
            p = poly.combine(t, a, b)
            if p is not None:
                f["poly"] = p
                r = poly.interval(p)
                if r is not None:
                    f["iv"] = r
        return f

    def neutral(self, v):
        """a plain number without quantity meaning (e.g. a weight)"""
        return v.f.get("neutral", False)

    def ang_facets(self, t, a, b, f, st, node):
        sa, sb = a.f.get("ang"), b.f.get("ang")
        raw = bool(a.f.get("raw") or b.f.get("raw"))
        if t in (ast.Add, ast.Sub):
            if sa is not None and sb is not None:
                ka, kb = D.ang_kind(sa), D.ang_kind(sb)
                if D._near(sa, sb):
                    f["ang"] = sa
                elif ka != kb and "odd" not in (ka, kb):
                    self.I.emit("ang-mix", node, a=ka, b=kb, op=t, st=st)
                elif ka == kb:
                    f["ang"] = sa
                f["raw"] = True
            elif sa is not None or sb is not None:
                s = sa if sa is not None else sb
                o = b if sa is not None else a
                c = self.const_angle(o)
                k = D.ang_kind(s)
                if c is not None and k != "odd" and c != k:
                    self.I.emit("ang-const", node, ang=k, const=o, op=t,
                                st=st)
                if o.only_consts() or c is not None or self.neutral(o):
                    f["ang"] = s
                    # full turn minus an angle stays inside one turn
                    f["raw"] = True
                    if t is ast.Sub and sb is not None and sa is None and \
                            self.is_full(o) and not raw:
                        f.pop("raw")
                elif not (o.prims & {"unk"}) and not o.f:
                    f["ang"] = s
                    f["raw"] = True
        elif t is ast.Mult:
            for s, o in ((sa, b), (sb, a)):
                if s is not None and o.is_const() and is_num_const(
                    o.const()
                ) and o.const() != 0 and not (
                    sa is not None and sb is not None
                ):
                    c = o.const()
                    f["ang"] = s * abs(c)
                    if raw:
                        f["raw"] = True
        elif t in (ast.Div, ast.FloorDiv):
            if sa is not None and sb is None and b.is_const() and \
                    is_num_const(b.const()) and b.const() != 0:
                f["ang"] = sa / abs(b.const())
                if raw:
                    f["raw"] = True
        elif t is ast.Mod:
            if sa is not None:
                k = D.ang_kind(sa)
                c = self.const_angle(b)
                if c is not None and k != "odd" and c != k:
                    self.I.emit("ang-const", node, ang=k, const=b, op=t,
                                st=st)
                f["ang"] = sa
                if raw and (not self.is_full(b) or (
                        c is not None and k != "odd" and c != k)):
                    f["raw"] = True
                if b.is_const() and is_num_const(b.const()) and \
                        b.const() > 0:
                    f["iv"] = (0.0, float(b.const()), False, True)
            elif a.f.get("role") == "WA" or raw:
                if raw and not self.is_full(b):
                    f["raw"] = True
            if sa is None and self.full_turn(b) is not None:
                f["ang"] = self.full_turn(b)
            if sa is None and b.is_const() and is_num_const(
                b.const()
            ) and b.const() > 0:
                f["iv"] = (0.0, float(b.const()), False, True)

    def const_angle(self, v):
        """'deg' / 'rad' for constants that only make sense in one unit"""
        kinds = set()
        if not v.only_consts():
            return None
        for c in v.consts:
            x = c.v
            if not is_num_const(x) or x == 0 or x != x or abs(x) == float(
                "inf"
            ):
                return None
            x = abs(x)
            if x in (45, 90, 135, 180, 225, 270, 315, 360, 450, 540, 720,
                     30, 60, 120, 150, 359):
                kinds.add("deg")
            else:
                q = x / (math.pi / 4)
                if abs(q - round(q)) < 1e-9 and 1 <= round(q) <= 16:
                    kinds.add("rad")
                else:
                    return None
        return kinds.pop() if len(kinds) == 1 else None

    def full_turn(self, v):
        """scale of the unit in which the constant `v` is one full turn"""
        if v.is_const() and is_num_const(v.const()):
            if v.const() == 360:
                return D.DEG
            if abs(v.const() - 2 * math.pi) < 1e-9:
                return D.RAD
        return None

    def is_full(self, v):
        if not v.is_const():
            return False
        c = v.const()
        return is_num_const(c) and (
            abs(c - 360) < 1e-9 or abs(c - 2 * math.pi) < 1e-9)

    # in-place operators
    def inplace(self, op, cur, rhs, st, node):
        outs = []
        many = len(cur.objs) > 1
        for a in self.alts(cur):
            o = a.single()
            if o is None:
                if a.bottom():
                    continue
                r = [self.binop1(op, a, y, st, node) for y in
                     self.alts(rhs)]
                outs += [x for x in r if x is not None]
                continue
            if isinstance(o, Arr):
                self.arr_inplace(op, o, a, rhs, st, node, many)
                outs.append(a)
                continue
            h = self.heap(o, st)
            if isinstance(h, Seq) and h.typ == "list" and isinstance(
                op, ast.Add
            ):
                self.list_extend(o, rhs, st, node)
                outs.append(a)
                continue
            if isinstance(h, Seq) and h.typ == "list" and isinstance(
                op, ast.Mult
            ):
                self.I.emit("write", node, loc=o, what="*=", field=None,
                            value=rhs, st=st, old=h)
                outs.append(a)
                continue
            if isinstance(h, Seq) and h.typ == "set" and isinstance(
                op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)
            ):
                self.I.emit("write", node, loc=o, what="set update",
                            field=None, value=rhs, st=st, old=h)
                e, _, _ = self.elements(rhs, st, node)
                n = st.edit(o)
                n.rest = joinall(list(n.prefix) + [n.rest or BOT, e])
                n.prefix = ()
                outs.append(a)
                continue
            if isinstance(h, Dict) and isinstance(op, ast.BitOr):
                self.dict_update(o, rhs, st, node)
                outs.append(a)
                continue
            if isinstance(h, Inst):
                val, c = self.I.class_attr(h.cls, OPS[type(op)][2], st)
                if val is not None:
                    outs.append(self.I.call(
                        self.I.bind(val, o, st, node, c), Args([rhs]),
                        node, st))
                    continue
            outs.append(self.binop(op, a, rhs, st, node))
        if not outs:
            raise Bottom()
        return joinall(outs)

    def const_set(self, h):
        """the elements of a set of known constants, None if not known"""
        if isinstance(h, Seq) and h.rest is None and all(
            x.is_const() for x in h.prefix
        ):
            return {x.const() for x in h.prefix}
        return None

    def const_sets(self, op, hx, hy, st, node):
        """set operator on sets of known constants"""
        a, b = self.const_set(hx), self.const_set(hy)
        if a is None or b is None:
            return None
        t = type(op)
        r = {ast.BitOr: a.__or__, ast.BitAnd: a.__and__, ast.Sub: a.__sub__,
             ast.BitXor: a.__xor__}[t](b)
        src = {}
        for x in list(hx.prefix) + list(hy.prefix):
            src.setdefault(x.const(), x)
        return self.seq(st, node, "set", [src[k] for k in src if k in r],
                        extra="sets")

    # ---------------------------------------------------------- compare
    def compare(self, op, a, b, st, node):
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            return self.cmp_is(t is ast.IsNot, a, b, st)
        if t in (ast.In, ast.NotIn):
            return self.cmp_in(t is ast.NotIn, a, b, st, node)
        outs = []
        if a.bottom() or b.bottom():
            return BOT
        for x in self.alts(a):
            for y in self.alts(b):
                r = self.cmp1(op, x, y, st, node)
                if r is not None:
                    outs.append(r)
        if not outs:
            raise Bottom()
        return joinall(outs)

    def cmp_is(self, neg, a, b, st):
        lab = a.lab | b.lab
        res = set()
        if b.is_const() and (b.const() is None or isinstance(
                b.const(), bool)):
            k = b.const()
            for c in a.consts:
                res.add(c.v is k)
            for p in a.prims:
                if p == "unk":
                    res |= {True, False}
                elif p == "none":
                    res.add(k is None)
                elif p == "bool" and k is not None:
                    res |= {True, False}
                else:
                    res.add(False)
            if a.objs:
                res.add(False)
        elif a.single() is not None and b.single() is not None:
            x, y = a.single(), b.single()
            if x == y:
                h = self.heap(x, st)
                if isinstance(x, Ext):
                    res = {True}
                elif isinstance(x, Loc) and h is not None and not h.multi:
                    res = {True}
                else:
                    res = {True, False}
            else:
                if isinstance(x, Loc) and isinstance(y, Loc) or type(
                    x) is not type(y) or isinstance(x, Ext):
                    res = {False}
                else:
                    res = {True, False}
        else:
            if not (a.objs & b.objs) and not (
                "unk" in a.prims or "unk" in b.prims) and not (
                a.consts & b.consts) and not (a.prims & b.prims) and not (
                a.prims and b.consts) and not (b.prims and a.consts):
                res = {False}
            else:
                res = {True, False}
        if len(res) == 1:
            return const(next(iter(res)) != neg, lab)
        return prim("bool", lab=lab)

    def cmp_in(self, neg, a, b, st, node):
        lab = a.lab | self.I.deep_labels(b, st, 3)
        res = set()
        for y in self.alts(b):
            o = y.single()
            if o is None:
                if y.is_const() and isinstance(y.const(), str) and \
                        a.is_const():
                    if isinstance(a.const(), str):
                        res.add(a.const() in y.const())
                    else:
                        self.raise_alt("TypeError", st)
                elif y.only_consts() and all(
                    not isinstance(c.v, str) for c in y.consts
                ):
                    self.raise_alt("TypeError", st)
                else:
                    if self.I.want_implicit:
                        self.I.may_raise(st)
                    res |= {True, False}
                continue
            if isinstance(o, Arr):
                e = self.arr_join(o, st)
                self.cmp_facets(ast.Eq(), a, e, st, node)
                res |= self.grid_in(a, obj(o), st) or {True, False}
                continue
            h = self.heap(o, st)
            if isinstance(h, Seq):
                self.cmp_facets(ast.Eq(), a, h.elem(), st, node)
                res |= self.member(a, list(h.prefix), h.rest, st)
            elif isinstance(h, Dict):
                sure = [V(consts=frozenset((k,))) for k in h.items
                        if k not in h.maybe]
                may = [V(consts=frozenset((k,))) for k in h.maybe]
                rest = joinall(may + ([h.rk] if h.rk is not None else []),
                               None)
                self.I.emit("dict-in", node, loc=o, key=a, st=st)
                res |= self.member(self.tkey(a, st), sure, rest, st)
            elif isinstance(h, Inst):
                val, c = self.I.class_attr(h.cls, "__contains__", st)
                if val is not None:
                    r = self.I.call(self.I.bind(val, o, st, node, c),
                                    Args([a]), node, st)
                    res |= self.I.truth(r, st)
                else:
                    try:
                        for k, p, r, s in self.iter_alts(y, st, node):
                            res |= self.member(a, list(p), r, st)
                    except Bottom:
                        pass
            else:
                res |= {True, False}
        if not res:
            raise Bottom()
        if len(res) == 1:
            return const(next(iter(res)) != neg, lab)
        return prim("bool", lab=lab)

    def member(self, a, pre, rest, st):
        out = set()
        for c in self.alts2(a):
            sure = False
            may = False
            for p in pre:
                e = self.eq_truth(c, p, st)
                if e == {True}:
                    sure = True
                if True in e:
                    may = True
            if rest is not None and not rest.bottom():
                if True in self.eq_truth(c, rest, st):
                    may = True
            if sure:
                out.add(True)
            elif may:
                out |= {True, False}
            else:
                out.add(False)
        return out or {True, False}

    def alts2(self, v):
        """alternatives with constants separated"""
        out = [V(frozenset((o,)), lab=v.lab) for o in v.objs]
        out += [V(consts=frozenset((c,)), lab=v.lab) for c in v.consts]
        out += [V(prims=frozenset((p,)), lab=v.lab, f=v.f)
                for p in v.prims]
        return out

    def difference(self, a, b):
        """range of the difference of two known forms"""
        if "poly" not in a.f or a.f.get("fn") or b.f.get("fn"):
            if "poly" not in b.f or a.f.get("fn") or b.f.get("fn"):
                return None
        p, q = poly.of(a), poly.of(b)
        if p is None or q is None:
            return None
        d = poly.add(p, q, -1.0)
        if not d and self.I.grids:
            return (0, 0, False, False)
        return poly.interval(d)

    def form_truth(self, a, b):
        """equality of values with known polynomial forms

        If the client asks for values in general position (`generic`),
        different forms are different values."""
        if "poly" not in a.f and "poly" not in b.f:
            return None
        p, q = poly.of(a), poly.of(b)
        if p is None or q is None:
            return None
        if p == q:
            return {True} if a.f.get("role") == b.f.get("role") and \
                a.f.get("role") is not None else None
        d = poly.add(p, q, -1.0)
        r = poly.reach(d)
        if r is not None and not r[0] <= 0 <= r[1]:
            return {False}
        if self.I.generic and d and not (
                len(d) == 1 and d[0][0] == ()) and not (
                    poly.has_terms(d) and not poly.differ(p, q)):
            return {False}
        return None

    def eq_truth(self, a, b, st):
        if a.only_consts() and b.only_consts():
            out = set()
            for x in a.consts:
                for y in b.consts:
                    try:
                        out.add(bool(x.v == y.v))
                    except Exception:
                        out |= {True, False}
            return out or {True, False}
        x, y = a.single(), b.single()
        if x is not None and y is not None:
            if isinstance(x, Ext) and isinstance(y, Ext):
                return {x == y}
            hx, hy = self.heap(x, st), self.heap(y, st)
            if isinstance(hx, Inst) and isinstance(hy, Inst):
                if x == y and not hx.multi:
                    return {True}
                m, _ = self.I.class_attr(hx.cls, "__eq__", st)
                c = st.heap[hx.cls]
                if c.flavour == "enum" or m is None and c.flavour is None:
                    return {x == y} if not hx.multi or x != y else {
                        True, False}
            if isinstance(hx, (Class, Func)) and isinstance(
                    hy, (Class, Func)):
                return {x == y}
            return {True, False}
        ka, kb = self.kinds(a), self.kinds(b)
        if not a.objs and not b.objs:
            if "unk" not in ka | kb:
                num = {"int", "float", "bool"}
                if not (ka & kb) and not (ka & num and kb & num):
                    return {False}
                iva, ivb = interval(a), interval(b)
                if iva and ivb and disjoint(iva, ivb):
                    return {False}
                e = self.form_truth(a, b)
                if e is not None:
                    return e
                for p, q in ((a, b), (b, a)):
                    # the text of a number is never empty
                    so = p.f.get("strof")
                    if q.is_const() and q.const() == "" and \
                            so is not None and not p.consts and \
                            not so.objs and so.prims <= num and all(
                                isinstance(c.v, (int, float))
                                for c in so.consts):
                        return {False}
            return {True, False}
        # an object against a scalar
        if (x is not None and not b.objs and "unk" not in kb) or (
            y is not None and not a.objs and "unk" not in ka
        ):
            o = x if x is not None else y
            h = self.heap(o, st)
            if isinstance(h, (Inst, Seq, Dict, Class, Func)) and not (
                isinstance(h, Inst) and self.I.class_attr(
                    h.cls, "__eq__", st)[0] is not None
            ):
                return {False}
        return {True, False}

    def cmp_facets(self, op, a, b, st, node):
        """angle / role sanity of a comparison"""
        sa, sb = a.f.get("ang"), b.f.get("ang")
        if sa is not None and sb is not None:
            ka, kb = D.ang_kind(sa), D.ang_kind(sb)
            if ka != kb and "odd" not in (ka, kb):
                self.I.emit("ang-mix", node, a=ka, b=kb, op=type(op), st=st)
        elif sa is not None or sb is not None:
            s = sa if sa is not None else sb
            o = b if sa is not None else a
            c = self.const_angle(o)
            k = D.ang_kind(s)
            if c is not None and k != "odd" and c != k:
                self.I.emit("ang-const", node, ang=k, const=o, op=type(op),
                            st=st)
        ra, rb = a.f.get("role"), b.f.get("role")
        if ra is not None and rb is not None and ra != rb:
            self.I.emit("role-mix", node, a=ra, b=rb, op=type(op), st=st)
        if isinstance(op, (ast.Eq, ast.NotEq)) and ra == rb and \
                ra in ("WA", "AWA") and \
                bool(a.f.get("raw")) != bool(b.f.get("raw")):
            self.I.emit("raw-compare", node, a=a, b=b, st=st)

    @staticmethod
    def numeric(v):
        return bool(v.prims & {"int", "float", "unk"}) or any(
            isinstance(c.v, (int, float)) and not isinstance(c.v, bool)
            for c in v.consts)

    def cmp1(self, op, x, y, st, node):
        t = type(op)
        ox, oy = x.single(), y.single()
        lab = x.lab | y.lab
        if isinstance(ox, Arr) or isinstance(oy, Arr):
            r = self.elementwise(
                lambda p, q: self.scalar_cmp(op, p, q, st, node), [x, y],
                st, node, dtype="bool")
            return self.cmp_mask(op, x, y, r, st)
        if ox is None and oy is None:
            return self.scalar_cmp(op, x, y, st, node)
        hx, hy = self.heap(ox, st), self.heap(oy, st)
        l, r = CMPS[t]
        for o, h, other, nm in ((ox, hx, y, l), (oy, hy, x, r)):
            if isinstance(h, Inst):
                val, c = self.I.class_attr(h.cls, nm, st)
                if val is None and t is ast.NotEq:
                    val, c = self.I.class_attr(h.cls, "__eq__", st)
                    if val is not None:
                        v = self.I.call(self.I.bind(val, o, st, node, c),
                                        Args([other]), node, st)
                        tr = self.I.truth(v, st)
                        if len(tr) == 1:
                            return const(not next(iter(tr)), lab | v.lab)
                        return prim("bool", lab=lab | v.lab)
                if val is not None:
                    return self.I.call(self.I.bind(val, o, st, node, c),
                                       Args([other]), node, st)
        for h, other in ((hx, oy), (hy, ox)):
            # elementwise if the other one is a number of numpy
            if other is None and isinstance(h, Seq) and h.typ in (
                    "list", "tuple") and self.numeric(y if h is hx else x):
                return UNK.withlab(self.labs([x, y], st, 3))
        if t in (ast.Eq, ast.NotEq):
            e = self.eq_struct(x, y, ox, oy, hx, hy, st, node)
            lab = self.labs([x, y], st, 3)
            if len(e) == 1:
                return const(next(iter(e)) == (t is ast.Eq), lab)
            return prim("bool", lab=lab)
        if isinstance(hx, (Inst, Func, Class)) or isinstance(
            hy, (Inst, Func, Class)
        ):
            if not (isinstance(hx, Opaque) or isinstance(hy, Opaque)):
                self.raise_alt("TypeError", st)
                return None
        if self.I.want_implicit:
            self.I.may_raise(st)
        return prim("bool", lab=self.labs([x, y], st, 3))

    def eq_struct(self, x, y, ox, oy, hx, hy, st, node):
        if isinstance(hx, Seq) and isinstance(hy, Seq):
            if hx.typ != hy.typ and {hx.typ, hy.typ} != {"list", "iter"}:
                return {False}
            if hx.rest is None and hy.rest is None:
                if hx.typ != "set":
                    dx, dy = hx.extra, hy.extra
                    if dx and dy and dx[0] == "shape" and dy[0] == "shape":
                        return {True, False}
                    if len(hx.prefix) != len(hy.prefix):
                        return {False}
                    res = {True}
                    for p, q in zip(hx.prefix, hy.prefix):
                        e = self.eq_truth(p, q, st)
                        if e == {False}:
                            return {False}
                        if e != {True}:
                            res = {True, False}
                    return res
                if hy.typ == "set":
                    a, b = self.const_set(hx), self.const_set(hy)
                    if a is not None and b is not None:
                        return {a == b}
            return {True, False}
        return self.eq_truth(x, y, st)

    def scalar_cmp(self, op, a, b, st, node):
        t = type(op)
        if a.bottom() or b.bottom():
            return BOT
        lab = a.lab | b.lab
        if a.objs or b.objs:
            if len(a.objs) + len(b.objs) == 1 and not (
                a.objs and (a.prims or a.consts)
            ) and not (b.objs and (b.prims or b.consts)):
                return self.cmp1(op, a, b, st, node) or prim("bool", lab=lab)
            return prim("bool", lab=lab)
        self.cmp_facets(op, a, b, st, node)
        res = None
        if a.only_consts() and b.only_consts() and len(a.consts) * len(
            b.consts
        ) <= 25:
            res = set()
            for p in a.consts:
                for q in b.consts:
                    try:
                        res.add(bool(_CMPF[t](p.v, q.v)))
                    except TypeError:
                        self.raise_alt("TypeError", st)
                    except Exception:
                        res |= {True, False}
            if not res:
                return None
        elif t in (ast.Eq, ast.NotEq):
            e = self.eq_truth(a, b, st)
            res = {x == (t is ast.Eq) for x in e}
        else:
            iva, ivb = interval(a), interval(b)
            d = self.difference(a, b)
            if d is not None:
                iva, ivb = d, (0, 0, False, False)
            if iva is not None and ivb is not None:
                res = iv_cmp(t, iva, ivb)
            else:
                ka, kb = self.kinds(a), self.kinds(b)
                if "none" in ka or "none" in kb or (
                    ("str" in ka) != ("str" in kb) and "unk" not in ka | kb
                ):
                    self.I.may_raise(st)
                    if (ka == {"none"} or kb == {"none"}) or (
                        "unk" not in ka | kb and (
                            (ka == {"str"}) != (kb == {"str"}))
                    ):
                        self.raise_alt("TypeError", st)
                        return None
                res = {True, False}
        f = {}
        if len(res) == 1:
            return V(E0, E0, frozenset((Const(next(iter(res))),)), lab, f)
        if poly.STATE["on"] and ("poly" in a.f or "poly" in b.f) and not (
                a.f.get("fn") or b.f.get("fn")) and t in (
                    ast.Lt, ast.LtE, ast.Gt, ast.GtE):
            p, q = poly.of(a), poly.of(b)
            if p is not None and q is not None:
                if self.I.generic:
                    r = poly.sided(poly.add(p, q, -1.0))
                    if r:
                        return const((r > 0) == (t in (ast.Gt, ast.GtE)),
                                     lab)
                r = poly.truth(t, p, q)
                if r is not None:
                    f["poly"] = r
        return V(E0, frozenset(("bool",)), E0, lab, f)

    def choice(self, c, p, q, st):
        """the value of `p if c else q`"""
        t = self.I.truth(c, st)
        if len(t) == 1:
            return (p if True in t else q).withlab(c.lab)
        v = join(p, q).withlab(c.lab)
        if "poly" in c.f and c.prims == {"bool"} and not c.consts and not (
                p.f.get("fn") or q.f.get("fn") or v.objs):
            r = poly.ite(c.f["poly"], poly.of(p), poly.of(q))
            if r is not None and self.kinds(v) <= {"int", "float", "bool"}:
                f = {k: x for k, x in v.f.items() if k in (
                    "ang", "role", "raw", "iv", "neutral")}
                f["poly"] = r
                return V(E0, v.prims | {D.kind_of_const(k.v)
                                        for k in v.consts}, E0, v.lab, f)
        return v

    # ---------------------------------------------------------- isinstance
    def type_is(self, alt, tv, st):
        """truth set of isinstance(alt, tv) for one alternative"""
        out = set()
        kinds = self.I.flatten_types(tv, st)
        if not kinds or tv.prims:
            return {True, False}
        for t in kinds:
            r = self.type_is1(alt, t, st)
            if r == {True}:
                return {True}
            out |= r
        return out

    def type_is1(self, alt, t, st):
        o = alt.single()
        tp = t.path if isinstance(t, Ext) else None
        if tp == "builtins.object":
            return {True}
        if o is None:
            res = set()
            ks = set(alt.prims)
            for c in alt.consts:
                ks.add(D.kind_of_const(c.v))
            for k in ks:
                res |= self.kind_is(k, t, tp, alt)
            return res or {True, False}
        if isinstance(o, Arr):
            if tp == "numpy.ndarray":
                return {True}
            if tp in ITERABLE_PATHS:
                return {True}
            if isinstance(t, Loc) or tp is not None and tp.startswith(
                "builtins."
            ):
                return {False}
            return {True, False} if tp == "types.UnionType" else {False}
        h = self.heap(o, st)
        if isinstance(h, Seq):
            nm = {"list": "builtins.list", "tuple": "builtins.tuple",
                  "set": "builtins.set", "slice": "builtins.slice"}.get(
                      h.typ)
            if tp == nm and nm:
                return {True}
            if tp in ITERABLE_PATHS:
                return {h.typ != "slice"}
            if tp == "types.UnionType":
                return {True, False}
            return {False}
        if isinstance(h, Dict):
            return {tp == "builtins.dict" or tp in ITERABLE_PATHS}
        if isinstance(h, (Inst, Opaque)):
            if h.cls is None:
                ext = getattr(h.contract, "ext", None)
                if ext is not None and tp is not None:
                    return {tp == ext} if tp != ext else {True}
                return {True, False}
            m = self.I.mro(h.cls, st)
            if t in m:
                return {True}
            if tp in ITERABLE_PATHS:
                v, _ = self.I.class_attr(h.cls, "__iter__", st)
                return {v is not None}
            if tp == "types.UnionType":
                return {True, False}
            if h.tag and isinstance(h.tag, tuple) and h.tag[0] == "nt" and \
                    tp == "builtins.tuple":
                return {True}
            return {False}
        if isinstance(h, Class):
            return {tp in ("builtins.type", "abc.ABCMeta")}
        if isinstance(h, (Func,)) or isinstance(o, Bound):
            return {tp in ("typing.Callable", "collections.abc.Callable",
                           "types.FunctionType")}
        if isinstance(h, File):
            return {True, False}
        return {True, False}

    def kind_is(self, k, t, tp, alt):
        if k == "unk":
            return {True, False}
        if tp is None:
            return {False}
        if tp == "types.UnionType":
            return {True, False}
        if k == "none":
            return {tp == "types.NoneType"}
        if k == "bool":
            return {tp in ("builtins.bool", "builtins.int")}
        if k == "int":
            if tp in ("builtins.int", "numbers.Number", "numbers.Integral",
                      "numbers.Real"):
                return {True}
            if tp in ("numpy.integer", "numpy.number", "numpy.int_",
                      "numpy.generic"):
                return {True, False}
            return {False}
        if k == "float":
            if tp in ("builtins.float", "numbers.Number", "numbers.Real"):
                return {True}
            if tp in ("numpy.floating", "numpy.number", "numpy.float_",
                      "numpy.float64", "numpy.generic"):
                return {True, False}
            return {False}
        if k == "str":
            return {tp == "builtins.str" or tp in ITERABLE_PATHS}
        if k in ("datetime", "date", "time", "timedelta"):
            if k == "datetime" and tp == "datetime.date":
                return {True}
            return {tp == f"datetime.{k}"}
        if k == "bytes":
            return {tp == "builtins.bytes"}
        if k == "type":
            return {tp == "builtins.type"}
        return {True, False}

    def filter_isinstance(self, v, tv, val, st):
        objs = set()
        for o in v.objs:
            if val in self.type_is(obj(o), tv, st):
                objs.add(o)
        consts = {c for c in v.consts
                  if val in self.type_is(V(consts=frozenset((c,))), tv, st)}
        prims = {p for p in v.prims
                 if val in self.type_is(V(prims=frozenset((p,))), tv, st)}
        if val and "unk" in prims:
            # the type test tells what the unknown value is
            ks = self.I.flatten_types(tv, st)
            names = set()
            for t in ks:
                nm = {"builtins.int": "int", "builtins.float": "float",
                      "builtins.str": "str", "builtins.bool": "bool",
                      "datetime.datetime": "datetime"}.get(
                          t.path if isinstance(t, Ext) else None)
                if nm is None:
                    names = None
                    break
                names.add(nm)
            if names:
                prims = (prims - {"unk"}) | names
        return V(frozenset(objs), frozenset(prims), frozenset(consts),
                 v.lab, v.f)

    # ---------------------------------------------------------- misc
    def stringify(self, x, st, node):
        """calls __str__/__repr__ of repository objects

        The text, if x is one object that has such a method"""
        out = None
        for o in x.objs:
            h = self.heap(o, st)
            if isinstance(h, Inst):
                for nm in ("__str__", "__repr__", "__format__"):
                    val, c = self.I.class_attr(h.cls, nm, st)
                    if val is not None:
                        try:
                            out = self.I.call(self.I.bind(
                                val, o, st, node, c), Args(), node, st)
                        except Bottom:
                            pass
                        break
        return out if x.single() is not None else None

    def mark_nonzero(self, z, st):
        """the quantities in z are known not to be zero from here on"""
        g = st.edit(GHOST) if GHOST in st.heap else None
        if g is None:
            st.heap[GHOST] = g = Ghost()
        g.data["nz"] = frozenset(g.data.get("nz", E0)) | frozenset(z)
        for loc, h in list(st.heap.items()):
            self._strip_z(loc, h, z, st)

    def _strip_z(self, loc, h, z, st):
        def fx(v):
            if isinstance(v, V) and v.f.get("z") and v.f["z"] & z:
                r = v.f["z"] - z
                return v.withf(z=r or None)
            return v

        if isinstance(h, Frame):
            ch = {k: fx(v) for k, v in h.vars.items()}
            if any(ch[k] is not h.vars[k] for k in ch):
                st.edit(loc).vars = ch
        elif isinstance(h, Inst):
            ch = {k: fx(v) for k, v in h.fields.items()}
            if any(ch[k] is not h.fields[k] for k in ch):
                st.edit(loc).fields = ch
        elif isinstance(h, Seq):
            pre = tuple(fx(v) for v in h.prefix)
            rest = fx(h.rest) if h.rest is not None else None
            if rest is not h.rest or any(
                    p is not q for p, q in zip(pre, h.prefix)):
                n = st.edit(loc)
                n.prefix, n.rest = pre, rest
        elif isinstance(h, Buf):
            fs = tuple(fx(v) for v in h.fields) if h.fields is not None \
                else None
            el = fx(h.elem) if h.elem is not None else None
            if el is not h.elem or (fs is not None and any(
                    p is not q for p, q in zip(fs, h.fields))):
                n = st.edit(loc)
                n.fields, n.elem = fs, el

    def never_raises(self, body):
        return all(isinstance(s, (ast.Pass,)) for s in body)

    def suppressed(self, v, st):
        o = v.single()
        h = self.heap(o, st)
        if isinstance(h, Opaque) and h.name == "suppress":
            return h.fields["types"]
        return None

    def enter_exit(self, v, st, node):
        o = v.single()
        h = self.heap(o, st) if o is not None else None
        if isinstance(h, File):
            n = st.edit(o)
            n.managed = True

            def ex(s):
                self.file_close(o, s)
            return v, ex
        if isinstance(h, Inst):
            en, c = self.I.class_attr(h.cls, "__enter__", st)
            xt, c2 = self.I.class_attr(h.cls, "__exit__", st)
            ev = UNK
            if en is not None:
                ev = self.I.call(self.I.bind(en, o, st, node, c), Args(),
                                 node, st)

            def ex2(s):
                if xt is not None:
                    try:
                        self.I.call(self.I.bind(xt, o, s, node, c2),
                                    Args([NONE, NONE, NONE]), node, s)
                    except Bottom:
                        pass
            return ev, ex2
        if isinstance(h, Opaque):
            fn = getattr(h.contract, "exit", None)

            def ex3(s):
                if fn is not None:
                    fn(self.I, o, s)
            return v, ex3
        return (v if not v.bottom() else UNK), (lambda s: None)

    def unknown_call(self, f, args, node, st):
        """call of something we know nothing about"""
        self.I.emit("unknown-call", node, func=f, args=args, st=st)
        self.I.may_raise(st)
        for a in args.all():
            self.call_back(a, node, st)
        return prim("unk", lab=self.labs([f] + args.all(), st))

    def call_back(self, v, node, st, args=None):
        """an external callee may call repository functions handed to it"""
        outs = []
        for o in v.objs:
            h = self.heap(o, st)
            if isinstance(h, Func) or isinstance(o, Bound):
                n = 2
                if args is None:
                    fi = st.heap[o.func].info if isinstance(o, Bound) else \
                        h.info
                    k = len(fi.params) - (1 if isinstance(o, Bound) else 0)
                    a = Args([UNK] * k)
                else:
                    a = args
                s = st.clone()
                try:
                    r = self.I.call(obj(o), a, node, s)
                    st.assign(join_states(st, s))
                    outs.append(r)
                except Bottom:
                    pass
        return joinall(outs, UNK)


_TYPEERR = object()
class TKey(tuple):
    """key of a dictionary: a tuple of constants"""


class _Node:
    _uid = ("key",)
    lineno = 0


KEYNODE = _Node()
_ZERODIV = object()
_CMPF = {
    ast.Lt: lambda p, q: p < q, ast.Gt: lambda p, q: p > q,
    ast.LtE: lambda p, q: p <= q, ast.GtE: lambda p, q: p >= q,
    ast.Eq: lambda p, q: p == q, ast.NotEq: lambda p, q: p != q,
}


def _nn(f):
    return {k: v for k, v in f.items() if v is not None}


def disjoint(x, y):
    return iv_cmp(ast.Lt, x, y) == {True} or iv_cmp(ast.Gt, x, y) == {True}


def iv_cmp(t, x, y):
    """truth set of x <op> y for intervals (lo, hi, lo_open, hi_open)"""
    if t is ast.Gt:
        return iv_cmp(ast.Lt, y, x)
    if t is ast.GtE:
        return iv_cmp(ast.LtE, y, x)
    out = set()
    if t is ast.Lt:
        # can be true: some p < q
        if x[0] < y[1]:
            out.add(True)
        # can be false: some p >= q
        if x[1] > y[0] or (x[1] == y[0] and not x[3] and not y[2]):
            out.add(False)
        return out or {True, False}
    if t is ast.LtE:
        if x[0] < y[1] or (x[0] == y[1] and not x[2] and not y[3]):
            out.add(True)
        if x[1] > y[0]:
            out.add(False)
        return out or {True, False}
    return {True, False}
