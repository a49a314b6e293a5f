"""Models of builtins, numpy and the libraries the repository uses."""
import ast
import bisect
import datetime
import functools
import builtins as _b
import math
import re

from . import domain as D, poly
from .domain import (
    BOOL, BOT, E0, FALSE, FLOAT, INT, NONE, STR, TRUE, UNK, Arr, Bound, Buf,
    Class, Const, Dict, Ext, ExtBound, File, Func, Ghost, Inst, Loc, Opaque,
    Seq, State, Super, V, const, interval, join, join_states, joinall, obj,
    prim,
)
from .nparr import ONE, Desc, R, is_r, nonempty

INF = float("inf")
CONSTS = {
    "numpy.pi": math.pi, "math.pi": math.pi, "numpy.inf": INF,
    "math.inf": INF, "numpy.nan": float("nan"), "numpy.NAN": float("nan"),
    "numpy.NaN": float("nan"), "math.nan": float("nan"),
    "numpy.newaxis": None, "numpy.e": math.e, "math.e": math.e,
    "math.tau": math.tau, "numpy.Inf": INF,
}
TRIG = {"sin", "cos", "tan"}
ARC = {"arcsin", "arccos", "arctan", "asin", "acos", "atan", "angle"}
POSF = {"exp", "sqrt", "square", "abs", "fabs", "absolute", "cosh"}
ELEM = {
    "exp", "sqrt", "square", "abs", "fabs", "absolute", "sign", "tanh",
    "sinh", "cosh", "arcsinh", "arccosh", "arctanh", "log", "log2", "log10", "log1p",
    "expm1", "floor", "ceil", "rint", "round", "around", "trunc",
    "negative", "positive", "reciprocal", "float64", "float_", "cbrt",
    "float32", "int_", "int64", "isnan", "isfinite", "isinf",
    "nan_to_num", "real", "degrees", "radians", "deg2rad", "rad2deg",
    "logical_not", "invert", "conjugate", "fix",
} | TRIG | ARC
ELEM2 = {
    "power": ast.Pow, "add": ast.Add, "subtract": ast.Sub,
    "multiply": ast.Mult, "divide": ast.Div, "true_divide": ast.Div,
    "mod": ast.Mod, "remainder": ast.Mod, "floor_divide": ast.FloorDiv,
}
LOGIC2 = {"logical_and": ast.BitAnd, "logical_or": ast.BitOr,
          "logical_xor": ast.BitXor}
CMP2 = {"less": ast.Lt, "less_equal": ast.LtE, "greater": ast.Gt,
        "greater_equal": ast.GtE, "equal": ast.Eq, "not_equal": ast.NotEq}
RED_SAME = {"min", "max", "amin", "amax", "mean", "average", "median",
            "nanmin", "nanmax", "nanmean", "percentile", "quantile",
            "nanmedian"}
RED_SUM = {"sum", "nansum", "cumsum", "cumprod", "prod", "std", "var",
           "nanstd", "ptp", "trapz"}
MUT_LIST = {"append", "extend", "insert", "pop", "remove", "clear", "sort",
            "reverse", "__setitem__", "__iadd__", "__delitem__"}
MUT_SET = {"add", "discard", "remove", "update", "pop", "clear",
           "difference_update", "intersection_update",
           "symmetric_difference_update"}
MUT_DICT = {"update", "pop", "popitem", "setdefault", "clear",
            "__setitem__", "__delitem__"}
MUT_ARR = {"sort", "fill", "put", "itemset", "resize", "partition",
           "setflags", "byteswap"}
KEEP = ("ang", "role", "raw", "iv", "trunc", "mix", "fin")
D.FACET_JOIN.setdefault("strof", join)

RAD, DEG = D.RAD, D.DEG


SETOPS = {"union": ast.BitOr(), "intersection": ast.BitAnd(),
          "difference": ast.Sub(), "symmetric_difference": ast.BitXor(),
          "issubset": None, "issuperset": None, "isdisjoint": None}


FOREVER = ("forever",)


class Libs:
    # =============================================================== names
    def load_ext(self, path):
        if path in CONSTS:
            return const(CONSTS[path])
        return obj(Ext(path))

    # =============================================================== calls
    def call_ext(self, t, args, node, st):
        p = t.path
        self.I.emit("ext-call", node, path=p, args=args, st=st)
        if p in self.I.stubs:
            return self.I.call(self.I.stubs[p], args, node, st)
        mod, _, name = p.rpartition(".")
        if mod == "builtins":
            m = getattr(self, "b_" + name, None)
            if m is not None:
                return m(args, node, st)
            if name in _exc_names():
                return obj(_exc(p))
            return self.generic(p, args, node, st)
        if mod == "builtins.dict" and name == "fromkeys" and args.pos:
            return self.dict_fromkeys(args, node, st)
        if mod in ("builtins.str", "builtins.list", "builtins.dict",
                   "builtins.set", "builtins.tuple") and args.pos and \
                name != "maketrans":
            from .interp import Args
            rest = Args(args.pos[1:], args.kw, args.rest, args.kwrest)
            rest.restsp = args.restsp
            return self.call_method(args.pos[0], name, rest, node, st)
        key = p.replace(".", "_")
        m = getattr(self, "x_" + key, None)
        if m is not None:
            return m(args, node, st)
        if mod == "numpy" or mod == "math":
            if name in ELEM:
                return self.np_elem(name, args, node, st)
            if name in ELEM2:
                return self.np_elem2(name, args, node, st)
            if name in LOGIC2 or name in CMP2:
                return self.np_logic(name, args, node, st)
            if name in RED_SAME or name in RED_SUM:
                return self.np_reduce(name, args, node, st)
            m = getattr(self, "np_" + name, None)
            if m is not None:
                return m(args, node, st)
        if mod == "numpy.random" or mod == "random":
            self.I.emit("rng", node, path=p, st=st)
            if name == "shuffle":
                self.write_arg(args.get(0, "x", UNK), node, st, "shuffle")
                self.add_label(args.get(0, "x", UNK), "rng", st)
                return NONE
            if name == "seed":
                self.I.emit("global-rng-seed", node, st=st)
                return NONE
            labs = self.labs(args.all(), st)
            return prim("unk", lab=labs | {"rng"})
        if mod in ("time",) and name in (
            "time", "perf_counter", "monotonic", "process_time", "time_ns",
        ):
            return FLOAT.withlab(frozenset(("clock",)))
        if p in ("uuid.uuid4", "os.urandom", "os.getpid"):
            return UNK.withlab(frozenset(("rng",)))
        return self.generic(p, args, node, st)

    def generic(self, p, args, node, st):
        """external function without a model"""
        self.unmodelled[p] = self.unmodelled.get(p, 0) + 1
        self.I.may_raise(st)
        for a in args.all():
            self.call_back(a, node, st)
        if p.rsplit(".", 1)[-1].endswith(("Error", "Exception", "Warning")):
            return obj(_exc(p))
        return prim("unk", lab=self.labs(args.all(), st))

    def write_arg(self, v, node, st, what):
        """an external function modifies its argument in place"""
        for o in v.objs:
            loc = o.buf if isinstance(o, Arr) else o
            if isinstance(loc, Loc) and loc in st.heap:
                self.I.emit("write", node, loc=loc, what=what, field=None,
                            value=UNK, st=st, old=st.heap[loc])

    def add_label(self, v, lab, st):
        l = frozenset((lab,))
        for o in v.objs:
            if isinstance(o, Arr) and o.buf in st.heap:
                b = st.edit(o.buf)
                if b.fields is not None:
                    b.fields = tuple(x.withlab(l) for x in b.fields)
                if b.elem is not None:
                    b.elem = b.elem.withlab(l)
                b.prov = None
            else:
                h = self.heap(o, st)
                if isinstance(h, Seq):
                    n = st.edit(o)
                    n.prefix = tuple(x.withlab(l) for x in n.prefix)
                    if n.rest is not None:
                        n.rest = n.rest.withlab(l)

    def args0(self, args):
        return args.get(0, "x", None) or args.get(0, "a", None) or \
            args.get(0, "arr", None) or UNK

    def c(self, v, default=None):
        if v is None:
            return default
        if v.is_const():
            return v.const()
        return LookupError

    # ------------------------------------------------------------ builtins
    def b_abs(self, args, node, st):
        return self.np_elem("abs", args, node, st)

    def b_all(self, args, node, st):
        return self._anyall(args, node, st, False)

    def b_any(self, args, node, st):
        return self._anyall(args, node, st, True)

    def _anyall(self, args, node, st, is_any):
        v = args.get(0, None, UNK)
        outs = []
        for k, pre, rest, sp in self.iter_alts(v, st, node):
            q = Seq("list", pre, rest)
            l = Loc(("temporary", "anyall"), "anyall")
            st.heap[l] = q
            outs.append(self.truth_red(obj(l), st, node, is_any))
            st.heap.pop(l)
        return joinall(outs, BOOL).withlab(v.lab)

    def b_bool(self, args, node, st):
        v = args.get(0, None, FALSE)
        tr = self.I.truth(v, st)
        lab = self.I.cond_labels(v, st) if hasattr(
            self.I, "cond_labels") else v.lab
        if len(tr) == 1:
            return const(next(iter(tr)), lab)
        if self.is_truth(v):
            return v.withlab(lab)
        return prim("bool", lab=lab)

    def is_truth(self, v):
        """a truth of known form"""
        return "poly" in v.f and v.prims == {"bool"} and not (
            v.consts or v.objs or v.f.get("fn"))

    def b_callable(self, args, node, st):
        v = args.get(0, None, UNK)
        res = set()
        for a in self.alts(v):
            o = a.single()
            if o is None:
                if "unk" in a.prims:
                    res |= {True, False}
                if a.consts or a.prims - {"unk"}:
                    res.add(False)
                continue
            h = self.heap(o, st)
            if isinstance(o, (Bound, ExtBound, Ext)) or isinstance(
                h, (Func, Class)
            ):
                res.add(True)
            elif isinstance(h, Inst):
                res.add(self.I.class_attr(h.cls, "__call__", st)[0]
                        is not None)
            elif isinstance(h, Opaque):
                res |= {True} if hasattr(h.contract, "call") else {False}
            else:
                res.add(False)
        if len(res) == 1:
            return const(res.pop())
        return BOOL

    def b_dict(self, args, node, st):
        d = Dict()
        v = args.get(0, None)
        unk = E0
        if v is not None:
            for a in self.alts(v):
                h = self.heap(a.single(), st)
                if isinstance(h, Dict):
                    d = self.dict_merge(d, h)
                    d.ks = h.ks
                else:
                    try:
                        al = self.iter_alts(a, st, node)
                    except Exception as e:
                        if type(e).__name__ != "Bottom":
                            raise
                        continue
                    for k, pre, rest, sp in al:
                        for x in pre:
                            kk, vv = self.pair(x, st, node)
                            self.dict_put(d, kk, vv, st=st)
                        if rest is not None:
                            kk, vv = self.pair(rest, st, node)
                            self.dict_put(d, kk, vv, weak=True, st=st)
                            d.maybe = d.maybe | frozenset(d.items)
        for k, x in args.kw.items():
            self.dict_put(d, const(k), x)
        if args.kwrest is not None:
            d.rk = STR if d.rk is None else join(d.rk, STR)
            d.rv = args.kwrest if d.rv is None else join(d.rv, args.kwrest)
        d.multi = False
        return obj(self.new(st, node, d), unk)

    def pair(self, x, st, node):
        """key and value of a two-element sequence"""
        ks, vs = [], []
        for a in self.alts(x):
            h = self.heap(a.single(), st)
            if isinstance(h, Seq) and len(h.prefix) >= 2:
                ks.append(h.prefix[0])
                vs.append(h.prefix[1])
            else:
                e = UNK
                try:
                    e, _, _ = self.elements(a, st, node)
                except Exception as ex:
                    if type(ex).__name__ != "Bottom":
                        raise
                ks.append(e)
                vs.append(e)
        return joinall(ks, UNK), joinall(vs, UNK)

    def b_enumerate(self, args, node, st):
        v = args.get(0, "iterable", UNK)
        start = self.c(args.get(1, "start"), 0)
        al = self.iter_alts(v, st, node)
        pres, rests, sp = self.merge_iter(al)
        f = {}
        if sp is not None and start == 0:
            f["ix"] = (sp, self.I.site(node))
        idx0 = V(E0, frozenset(("int",)), E0, E0,
                 dict(f, iv=(0, INF, False, True)))
        pre = []
        for i, x in enumerate(pres):
            iv = const(i + start) if isinstance(start, int) else INT
            pre.append(self.seq(st, node, "tuple", [iv, x],
                                extra=("en", i)))
        rest = None
        if rests is not None:
            rest = self.seq(st, node, "tuple", [idx0, rests],
                            extra=("en", "r"))
        return self.seq(st, node, "iter", pre, rest, sp, extra="enum")

    def merge_iter(self, al):
        """one (prefix, rest, space) for several iteration alternatives"""
        if len(al) == 1:
            k, p, r, s = al[0]
            return list(p), r, s
        ns = {len(p) for _, p, _, _ in al}
        rs = [r for _, _, r, _ in al if r is not None]
        if len(ns) == 1 and len(rs) in (0, len(al)):
            sps = {s for _, _, _, s in al}
            return ([joinall(list(c)) for c in zip(*[p for _, p, _, _ in al])],
                    joinall(rs) if rs else None,
                    sps.pop() if len(sps) == 1 else None)
        es = []
        for k, p, r, s in al:
            es += list(p)
            if r is not None:
                es.append(r)
        sps = {s for _, _, _, s in al}
        return [], joinall(es, BOT), (sps.pop() if len(sps) == 1 else None)

    def b_filter(self, args, node, st):
        f = args.get(0, None, UNK)
        pre, rest, sp = self.merge_iter(
            self.iter_alts(args.get(1, None, UNK), st, node))
        keep = []
        lab = set()
        exact = rest is None
        for x in pre + ([rest] if rest is not None else []):
            if f.is_const() and f.const() is None:
                r = x
            else:
                from .interp import Args
                r = self.I.call(f, Args([x]), node, st)
            lab |= self.I.deep_labels(r, st, 2)
            t = self.I.truth(r, st)
            if True in t:
                keep.append(x)
            exact = exact and len(t) == 1
        if exact:
            return self.seq(st, node, "iter",
                            [x.withlab(frozenset(lab)) for x in keep],
                            extra="filter")
        return self.seq(st, node, "iter", (), joinall(keep, BOT).withlab(
            frozenset(lab)), None)

    def b_float(self, args, node, st):
        v = args.get(0, None)
        if v is None:
            return const(0.0)
        return self.to_number(v, node, st, "float")

    def b_int(self, args, node, st):
        v = args.get(0, None)
        if v is None:
            return const(0)
        return self.to_number(v, node, st, "int")

    def to_number(self, v, node, st, kind):
        outs = []
        for a in self.alts(v):
            o = a.single()
            if self.is_truth(a):
                outs.append(V(E0, frozenset((kind,)), E0, a.lab,
                              {"poly": a.f["poly"]}))
            elif o is not None:
                if isinstance(o, Arr):
                    e = self.arr_join(o, st)
                    outs.append(self.num_of(e, kind, node, st).withlab(
                        a.lab))
                else:
                    h = self.heap(o, st)
                    if isinstance(h, (Seq, Dict, Func)):
                        self.raise_alt("TypeError", st)
                    elif isinstance(h, Inst):
                        m, c = self.I.class_attr(h.cls, f"__{kind}__", st)
                        if m is None:
                            self.raise_alt("TypeError", st)
                        else:
                            outs.append(prim(kind))
                    else:
                        self.I.may_raise(st)
                        outs.append(prim(kind, lab=self.labs([a], st)))
                continue
            outs.append(self.num_of(a, kind, node, st))
        outs = [x for x in outs if not x.bottom()]
        if not outs:
            from .interp import Bottom
            raise Bottom()
        return joinall(outs)

    def num_of(self, a, kind, node, st):
        outs = []
        for c in a.consts:
            try:
                x = float(c.v) if kind == "float" else int(c.v)
                outs.append(V(E0, E0, frozenset((Const(x),)), a.lab,
                              {k: y for k, y in a.f.items() if k in KEEP
                               and k != "iv"}))
            except ValueError:
                self.raise_alt("ValueError", st)
            except OverflowError:
                self.raise_alt("OverflowError", st)
            except TypeError:
                self.raise_alt("TypeError", st)
        for p in a.prims:
            if p == "str":
                self.I.may_raise(st)
                so = a.f.get("strof")
                if so is None:
                    outs.append(prim(kind, lab=a.lab))
                else:
                    so2 = V(E0, so.prims - {"none", "str"}, frozenset(
                        c for c in so.consts
                        if isinstance(c.v, (int, float))), so.lab | a.lab,
                        so.f)
                    if so2.bottom():
                        self.raise_alt("ValueError", st)
                    else:
                        outs.append(V(E0, frozenset((kind,)), so2.consts,
                                      so2.lab, so2.f))
            elif p == "none":
                self.raise_alt("TypeError", st)
            elif p in ("int", "float", "bool", "unk"):
                if p == "unk":
                    self.I.may_raise(st)
                f = {k: y for k, y in a.f.items()
                     if k in KEEP + ("z", "dim", "ix", "neutral")}
                if kind == "int" and p != "int":
                    f.pop("iv", None)
                    f["trunc"] = True
                    if "poly" in a.f:
                        f["fn"] = "int()"
                elif "poly" in a.f:
                    f["poly"] = a.f["poly"]
                outs.append(V(E0, frozenset((kind,)), E0, a.lab, f))
            else:
                self.raise_alt("TypeError", st)
        for o in a.objs:
            outs.append(prim(kind, lab=a.lab))
        return joinall(outs, BOT)

    def b_complex(self, args, node, st):
        return UNK

    def b_frozenset(self, args, node, st):
        return self.b_set(args, node, st)

    def b_set(self, args, node, st):
        v = args.get(0, None)
        if v is None:
            return self.seq(st, node, "set")
        pre, rest, sp = self.merge_iter(self.iter_alts(v, st, node))
        pre2 = []
        for x in pre:
            if x not in pre2:
                pre2.append(x)
        ks = ("set", sp)
        return self.seq(st, node, "set", pre2, rest)

    def b_list(self, args, node, st):
        return self._listlike("list", args, node, st)

    def b_tuple(self, args, node, st):
        return self._listlike("tuple", args, node, st)

    def _listlike(self, typ, args, node, st):
        v = args.get(0, None)
        if v is None:
            return self.seq(st, node, typ)
        outs = []
        for i, (k, pre, rest, sp) in enumerate(
                self.iter_alts(v, st, node)):
            if k == "unk" and typ == "list":
                # unknown iterable: a fresh list of unknown elements
                pass
            outs.append(self.seq(st, node, typ, pre, rest, sp,
                                 extra=("ll", i)))
        return joinall(outs)

    def b_iter(self, args, node, st):
        v = args.get(0, None, UNK)
        outs = []
        for a in self.alts(v):
            o = a.single()
            h = self.heap(o, st)
            if isinstance(h, Seq) and h.typ == "iter":
                outs.append(a)
                continue
            for i, (k, pre, rest, sp) in enumerate(
                    self.iter_alts(a, st, node)):
                outs.append(self.seq(st, node, "iter", pre, rest, sp,
                                     extra=("it", i)))
        return joinall(outs, UNK)

    def b_next(self, args, node, st):
        v = args.get(0, None, UNK)
        dflt = args.get(1, None)
        outs = []
        for a in self.alts(v):
            o = a.single()
            h = self.heap(o, st)
            if isinstance(h, Seq):
                if h.typ != "iter":
                    self.raise_alt("TypeError", st)
                    continue
                if h.prefix:
                    outs.append(h.prefix[0].withlab(a.lab))
                    n = st.edit(o)
                    if n.multi:
                        n.rest = joinall([n.rest or BOT] + list(n.prefix))
                        n.prefix = ()
                    else:
                        n.prefix = n.prefix[1:]
                        if not n.prefix and isinstance(n.extra, tuple) and \
                                n.extra[0] == "csvr":
                            n.space = n.extra[2]
                    self.advance(o, n, st)
                elif h.rest is not None:
                    self.I.may_raise(st)
                    if dflt is None:
                        if self.I.want_implicit:
                            self.raise_alt("StopIteration", st)
                    if not h.rest.bottom():
                        outs.append(h.rest.withlab(a.lab))
                    if h.space is not None:
                        st.edit(o).space = ("slice", h.space,
                                            (1, None, None))
                elif dflt is None:
                    self.raise_alt("StopIteration", st)
                if dflt is not None and not h.prefix:
                    outs.append(dflt)
                continue
            if isinstance(h, Inst):
                m, c = self.I.class_attr(h.cls, "__next__", st)
                if m is not None:
                    from .interp import Args
                    outs.append(self.I.call(
                        self.I.bind(m, o, st, node, c), Args(), node, st))
                    continue
            if isinstance(h, File):
                k, pre, rest, sp = self.file_iter(o, h, a.lab, st, node)
                outs.append(joinall(list(pre[:1]) or [rest or UNK]))
                if h.pos is not None:
                    st.edit(o).pos = h.pos + 1
                continue
            self.I.may_raise(st)
            outs.append(prim("unk", lab=self.I.deep_labels(a, st)))
        if not outs:
            from .interp import Bottom
            raise Bottom()
        return joinall(outs)

    def advance(self, loc, n, st):
        """a csv reader moves the position of its file"""
        if isinstance(n.extra, tuple) and n.extra and n.extra[0] == "csvr":
            fl = n.extra[1]
            fh = st.heap.get(fl)
            if isinstance(fh, File) and fh.pos is not None:
                st.edit(fl).pos = fh.pos + 1

    def b_len(self, args, node, st):
        v = args.get(0, "obj", UNK)
        outs = []
        for a in self.alts(v):
            o = a.single()
            if o is None:
                for c in a.consts:
                    if isinstance(c.v, (str, bytes)):
                        outs.append(const(len(c.v), a.lab))
                    else:
                        self.raise_alt("TypeError", st)
                for p in a.prims:
                    if p in ("str", "bytes"):
                        outs.append(prim("int", lab=a.lab,
                                         iv=(0, INF, False, True)))
                    elif p == "unk":
                        self.I.may_raise(st)
                        outs.append(prim("int", lab=a.lab,
                                         iv=(0, INF, False, True)))
                    else:
                        self.raise_alt("TypeError", st)
                continue
            if isinstance(o, Arr):
                if not o.axes:
                    self.raise_alt("TypeError", st)
                else:
                    outs.append(self.count(
                        self.axis_len(o, o.axes[0], st), a, st))
                continue
            h = self.heap(o, st)
            if isinstance(h, Seq):
                if h.typ in ("iter", "slice"):
                    self.raise_alt("TypeError", st)
                    continue
                outs.append(self.count(self.seq_len(h), a, st))
            elif isinstance(h, Dict):
                if h.rk is None and not h.maybe:
                    outs.append(const(len(h.items), a.lab))
                else:
                    lo = len([k for k in h.items if k not in h.maybe])
                    outs.append(prim("int", lab=a.lab,
                                     iv=(lo, INF, False, True)))
            elif isinstance(h, Inst):
                m, c = self.I.class_attr(h.cls, "__len__", st)
                if m is not None:
                    from .interp import Args
                    outs.append(self.I.call(
                        self.I.bind(m, o, st, node, c), Args(), node, st))
                elif isinstance(h.tag, tuple) and h.tag[:1] == ("nt",):
                    outs.append(const(len(h.tag[1])))
                elif self.I.ext_bases_unknown(h.cls, st):
                    outs.append(INT)
                else:
                    self.raise_alt("TypeError", st)
            elif isinstance(h, (Func, Class)):
                self.raise_alt("TypeError", st)
            else:
                outs.append(prim("int", lab=self.I.deep_labels(a, st)))
        if not outs:
            from .interp import Bottom
            raise Bottom()
        return joinall(outs)

    def count(self, n, v, st):
        """a size that is not fixed depends on the contents"""
        if n.consts and not n.prims:
            return n.withlab(v.lab)
        return n.withlab(v.lab | self.I.deep_labels(v, st, 1))

    def seq_len(self, h):
        if h.rest is None and h.typ != "set":
            return const(len(h.prefix))
        if h.typ == "set":
            k = self.const_set(h)
            if k is not None:
                return const(len(k))
        f = {"iv": (max(1 if nonempty(h.space) else 0,
                        len(h.prefix) if h.typ != "set" else
                        min(1, len(h.prefix))), INF, False, True)}
        if h.space is not None and not h.prefix:
            f["dim"] = h.space
        return V(E0, frozenset(("int",)), E0, E0, f)

    def b_map(self, args, node, st):
        from .interp import Args
        f = args.get(0, None, UNK)
        its = [self.merge_iter(self.iter_alts(x, st, node))
               for x in args.pos[1:]]
        if not its:
            return UNK
        its = self.endless(its)
        n = min((len(p) for p, r, s in its))
        exact = all(r is None for p, r, s in its)
        sp = self.merge_spaces([s for p, r, s in its], st, node)
        pre = []
        if exact:
            for i in range(n):
                pre.append(self.I.call(f, Args([p[i] for p, r, s in its]),
                                       node, st))
            return self.seq(st, node, "iter", pre, None, sp, extra="map")
        es = [joinall(list(p) + ([r] if r is not None else []), BOT)
              for p, r, s in its]
        if any(e.bottom() for e in es):
            return self.seq(st, node, "iter", (), BOT, sp, extra="map")
        s2 = st.clone()
        self.I.loop_depth += 1
        try:
            r = self.I.call(f, Args(es), node, s2)
            st.assign(join_states(st, s2))
        except Exception as e:
            if type(e).__name__ != "Bottom":
                raise
            r = BOT
        finally:
            self.I.loop_depth -= 1
        return self.seq(st, node, "iter", (), r, sp, extra="map")

    def b_max(self, args, node, st):
        return self._minmax(args, node, st, max)

    def b_min(self, args, node, st):
        return self._minmax(args, node, st, min)

    def _minmax(self, args, node, st, pick):
        from .interp import Args, Bottom
        vs = list(args.pos)
        key = args.kw.get("key")
        dflt = args.kw.get("default")
        if len(vs) == 1 and args.rest is None:
            pre, rest, sp = self.merge_iter(
                self.iter_alts(vs[0], st, node))
            es = pre + ([rest] if rest is not None else [])
            es = [e for e in es if not e.bottom()]
            if not es:
                if dflt is not None:
                    return dflt
                self.raise_alt("ValueError", st)
                raise Bottom()
            if rest is not None and not pre:
                self.I.may_raise(st)
            exact = rest is None
            if dflt is not None and not exact:
                es.append(dflt)
        else:
            exact = args.rest is None
            es = vs + ([args.rest] if args.rest is not None else [])
        lab = E0
        ks = es
        if key is not None:
            ks = []
            for e in es:
                k = self.I.call(key, Args([e]), node, st)
                lab = lab | self.I.deep_labels(k, st, 2)
                ks.append(k)
        else:
            lab = self.labs(es, st, 2)
        if exact and all(k.is_const() for k in ks):
            try:
                cs = [k.const() for k in ks]
                return es[cs.index(pick(cs))].withlab(lab)
            except (TypeError, ValueError):
                if key is None:
                    self.raise_alt("TypeError", st)
                    raise Bottom()
        if exact:
            i = self.extreme(ks, pick)
            if i is not None:
                return es[i].withlab(lab)
            if key is None:
                v = self.extremum(es, pick is max)
                if v is not None:
                    return v.withlab(lab)
        return joinall(es).withlab(lab)

    def extremum(self, vs, big):
        """largest or smallest of numbers of known forms and unknown order"""
        if not self.I.grids or not vs or any(
                v.objs or v.f.get("fn") or poly.of(v) is None for v in vs):
            return None
        acc = vs[0]
        for v in vs[1:]:
            i = self.extreme([acc, v], max if big else min)
            if i is not None:
                acc = (acc, v)[i]
                continue
            r = join(acc, v)
            f = self.applied("max" if big else "min", acc, {
                k: z for k, z in r.f.items()
                if k in ("role", "ang", "raw")}, v)
            if "poly" not in f:
                return None
            acc = V(E0, frozenset(("float",)), E0, r.lab, f)
        return acc.withlab(frozenset().union(*[v.lab for v in vs]))

    def extreme(self, vs, pick):
        """index of the value that no other one can exceed"""
        ivs = [None if v.objs or "unk" in v.prims else interval(v)
               for v in vs]

        def beats(i, j):
            a, b = ivs[i], ivs[j]
            if a is not None and b is not None and (
                    a[0] >= b[1] if pick is max else a[1] <= b[0]):
                return True
            d = self.difference(vs[i], vs[j])
            return d is not None and (
                d[0] >= 0 if pick is max else d[1] <= 0) or same(i, j)

        def same(i, j):
            p = vs[i].f.get("poly")
            return p is not None and p == vs[j].f.get("poly")
        for i in range(len(vs)):
            if all(j == i or beats(i, j) for j in range(len(vs))):
                return i
        return None

    def b_open(self, args, node, st):
        path = args.get(0, "file", UNK)
        mode = args.get(1, "mode", const("r"))
        if self.I.want_implicit:
            self.raise_alt("OSError", st)
        f = File(path, self.c(mode, "r"))
        loc = self.new(st, node, f)
        self.I.emit("open", node, loc=loc, path=path, mode=f.mode, st=st)
        m = f.mode if isinstance(f.mode, str) else "?"
        key = self.path_key(path)
        if ("w" in m or "x" in m) and key is not None:
            q = self.new(st, node, Seq("file", ()), ("vfs", key))
            g = self.ghost(st)
            g.data[("file", key)] = obj(q)
        return obj(loc)

    def ghost(self, st):
        from .interp import GHOST
        if GHOST not in st.heap:
            st.heap[GHOST] = Ghost()
        return st.edit(GHOST)

    def path_key(self, v):
        if v.is_const():
            return ("c", v.const())
        return v.f.get("path")

    def psym(self, v):
        """symbolic text of a path, None if it is not known"""
        if v.is_const() and isinstance(v.const(), (str, int)):
            return ("c", str(v.const()))
        return v.f.get("path")

    def pcat(self, vs, sep=""):
        """concatenated symbolic texts; only kept for parts of a path"""
        ps = [self.psym(v) for v in vs]
        if any(p is None for p in ps) or not any("path" in v.f for v in vs):
            return {}
        out = []
        for i, p in enumerate(ps):
            if i and sep:
                out.append(("c", sep))
            out += list(p[1:]) if p[0] == "cat" else [p]
        flat = []
        for p in out:
            if p[0] == "c" and flat and flat[-1][0] == "c":
                flat[-1] = ("c", flat[-1][1] + p[1])
            elif p != ("c", ""):
                flat.append(p)
        return {"path": ("cat",) + tuple(flat) if len(flat) != 1
                else flat[0]}

    def ptext(self, p, lab):
        return V(E0, frozenset(("str",)), E0, lab, {"path": p})

    def x_os_path_split(self, args, node, st):
        v = args.get(0, "p", UNK)
        p = v.f.get("path")
        if p is None:
            e = STR.withlab(self.labs([v], st))
            return self.seq(st, node, "tuple", [e, e])
        return self.seq(st, node, "tuple", [
            self.ptext(("dir", p), v.lab), self.ptext(("base", p), v.lab)])

    def x_os_path_splitext(self, args, node, st):
        v = args.get(0, "p", UNK)
        p = v.f.get("path")
        if p is None:
            e = STR.withlab(self.labs([v], st))
            return self.seq(st, node, "tuple", [e, e])
        return self.seq(st, node, "tuple", [
            self.ptext(("root", p), v.lab), self.ptext(("ext", p), v.lab)])

    def path_part(self, op, args, st):
        v = args.get(0, "p", UNK)
        p = v.f.get("path")
        lab = self.labs([v], st)
        return self.ptext((op, p), lab) if p is not None else \
            STR.withlab(lab)

    def x_os_path_dirname(self, args, node, st):
        return self.path_part("dir", args, st)

    def x_os_path_basename(self, args, node, st):
        return self.path_part("base", args, st)

    def x_os_fspath(self, args, node, st):
        return args.get(0, "path", UNK)

    def x_os_path_abspath(self, args, node, st):
        return args.get(0, "path", UNK)

    x_os_path_normpath = x_os_path_realpath = x_os_path_abspath

    def x_os_path_join(self, args, node, st):
        vs = list(args.pos)
        lab = self.labs(args.all(), st)
        ps = [self.psym(v) for v in vs]
        if args.rest is not None or any(p is None for p in ps):
            return STR.withlab(lab)
        if not any("path" in v.f for v in vs):
            return STR.withlab(lab)
        return self.ptext(("join",) + tuple(ps), lab)

    def file_seq(self, path, st):
        from .interp import GHOST
        g = st.heap.get(GHOST)
        if g is None or self.path_key(path) is None:
            return None
        v = g.data.get(("file", self.path_key(path)))
        if v is None:
            return None
        return v.single()

    def file_append(self, h, rec, st, node):
        q = self.file_seq(h.path, st)
        if q is None or q not in st.heap:
            return
        n = st.edit(q)
        if n.rest is None and not n.multi and len(n.prefix) < 60:
            n.prefix = n.prefix + (rec,)
        else:
            n.rest = rec if n.rest is None else join(n.rest, rec)
            n.extra = None

    def rest_space(self, sh):
        """what the repeated records of a file range over"""
        if isinstance(sh.extra, tuple) and sh.extra[0] == "restsp":
            return sh.extra[1]
        return None

    def file_iter(self, o, h, lab, st, node):
        self.I.emit("file-read", node, loc=o, st=st)
        q = self.file_seq(h.path, st)
        sh = st.heap.get(q) if q is not None else None
        if sh is None:
            return ("file", [], STR.withlab(lab | h.path.lab | {"FILE"}),
                    None)
        pos = h.pos or 0
        st.edit(o).pos = None
        pre = list(sh.prefix[pos:])
        return ("file", pre, sh.rest, None if pre else self.rest_space(sh))

    def file_close(self, o, st):
        if o in st.heap:
            st.edit(o).status = frozenset(("closed",))

    def b_print(self, args, node, st):
        return NONE

    def b_input(self, args, node, st):
        return STR

    def b_id(self, args, node, st):
        return INT.withlab(frozenset(("addr",)))

    def b_hash(self, args, node, st):
        return INT.withlab(self.labs(args.all(), st))

    def b_range(self, args, node, st):
        vs = args.pos
        cs = [self.c(v) for v in vs]
        if vs and all(isinstance(x, int) for x in cs):
            try:
                r = range(*cs)
            except (TypeError, ValueError):
                self.raise_alt("ValueError", st)
                from .interp import Bottom
                raise Bottom()
            if len(r) <= (80 if self.I.grids else 12):
                q = self.seq(st, node, "tuple", [const(i) for i in r])
                return q
            return self.seq(st, node, "tuple", (), prim(
                "int", iv=(min(r), max(r), False, False)))
        if len(vs) == 1:
            sp = vs[0].f.get("dim")
            iv = interval(vs[0])
            hi = iv[1] - 1 if iv else INF
            f = {"iv": (0, max(hi, 0), False, hi == INF)}
            if sp is not None:
                f["ix"] = (sp, self.I.site(node))
            rest = V(E0, frozenset(("int",)), E0, vs[0].lab, f)
            if iv is not None and iv[1] <= 0:
                return self.seq(st, node, "tuple", ())
            return self.seq(st, node, "tuple", (), rest, sp)
        lab = self.labs(vs, st, 1)
        f = {}
        iv0 = interval(vs[0]) if vs else None
        iv1 = interval(vs[1]) if len(vs) > 1 else None
        if iv0 and iv1 and len(vs) == 2:
            f["iv"] = (iv0[0], max(iv0[0], iv1[1] - 1), False,
                       iv1[1] == INF)
        for v in vs[:2]:
            d = v.f.get("dim") or v.f.get("dimoff")
            if d is not None and len(vs) == 2:
                f["ix"] = (d, self.I.site(node))
        return self.seq(st, node, "tuple", (),
                        V(E0, frozenset(("int",)), E0, lab, f))

    def b_repr(self, args, node, st):
        return self.b_str(args, node, st)

    def b_format(self, args, node, st):
        v = args.get(0, None)
        if v is None:
            return prim("str")
        self.stringify(v, st, node)
        return self.formatted(v, self.c(args.get(1, None, const("")), None),
                              st)

    def formatted(self, v, spec, st):
        """text of a number written with a format specification"""
        r = self.cell(v, st)
        so = r.f.get("strof")
        if so is None or spec in ("", "s", "r"):
            return r
        if so.objs or not (so.prims <= {"float", "int", "bool"}):
            return prim("str", lab=r.lab)
        m = re.search(r"\.(\d+)", spec) if isinstance(spec, str) else None
        if spec is None:
            return prim("str", lab=r.lab)
        if (m and int(m.group(1)) < 16) or (
            not m and spec[-1] in "feEFgGdn%"
        ):
            f = dict(so.f, trunc=True)
            so = V(so.objs, so.prims, so.consts, so.lab, f)
            return V(r.objs, r.prims, r.consts, r.lab,
                     dict(r.f, strof=so))
        return r

    def b_ascii(self, args, node, st):
        return self.b_str(args, node, st)

    def b_str(self, args, node, st):
        v = args.get(0, None)
        if v is None:
            return const("")
        r = self.stringify(v, st, node)
        if r is not None and self.kinds(r) <= {"str"} and self.I.grids:
            return r
        return self.cell(v, st)

    def cell(self, v, st):
        """the text of a value written to a file"""
        if v.only_consts() and len(v.consts) <= 4:
            if not v.f:
                return V(E0, E0, frozenset(
                    Const(str(c.v)) for c in v.consts), v.lab, {})
            if len(v.consts) == 1 and isinstance(
                    next(iter(v.consts)).v, str):
                return v
        if v.prims <= {"str"} and not v.objs and not any(
            not isinstance(c.v, str) for c in v.consts
        ):
            return v
        lab = self.I.deep_labels(v, st, 3)
        e = v
        if v.objs and all(isinstance(o, Arr) for o in v.objs) and not (
                v.prims or v.consts):
            e = joinall([self.arr_join(o, st) for o in v.objs], UNK)
        f = {k: x for k, x in e.f.items() if k in ("role", "ang")}
        return V(E0, frozenset(("str",)), E0, lab, dict(f, strof=e))

    def b_reversed(self, args, node, st):
        pre, rest, sp = self.merge_iter(
            self.iter_alts(args.get(0, None, UNK), st, node))
        s = ("flip", sp) if sp is not None else None
        if isinstance(sp, tuple) and sp[0] == "flip":
            s = sp[1]
        if rest is None:
            return self.seq(st, node, "iter", reversed(pre), None, s)
        return self.seq(st, node, "iter", (), joinall(pre + [rest]), s)

    def b_round(self, args, node, st):
        return self.np_elem("round", args, node, st)

    def b_pow(self, args, node, st):
        return self.binop(ast.Pow(), args.get(0, None, UNK),
                          args.get(1, None, UNK), st, node)

    def b_divmod(self, args, node, st):
        a, b = args.get(0, None, UNK), args.get(1, None, UNK)
        return self.seq(st, node, "tuple", [
            self.binop(ast.FloorDiv(), a, b, st, node),
            self.binop(ast.Mod(), a, b, st, node)])

    def b_setattr(self, args, node, st):
        n = args.get(1, None, UNK)
        o, v = args.get(0, None, UNK), args.get(2, None, UNK)
        if n.only_consts():
            for c in n.consts:
                if len(n.consts) == 1:
                    self.I.setattr_(o, c.v, v, st, node)
                else:
                    s2 = st.clone()
                    self.I.setattr_(o, c.v, v, s2, node)
                    st.assign(join_states(st, s2))
            return NONE
        for x in o.objs:
            h = self.heap(x, st)
            if isinstance(h, (Inst, Class)):
                self.I.emit("write", node, loc=x, what="setattr",
                            field=None, value=v, st=st, old=None)
                e = st.edit(x)
                for k in list(e.fields):
                    e.fields[k] = join(e.fields[k], v)
        return NONE

    def b_delattr(self, args, node, st):
        self.write_arg(args.get(0, None, UNK), node, st, "delattr")
        return NONE

    def b_getattr(self, args, node, st):
        o, n = args.get(0, None, UNK), args.get(1, None, UNK)
        d = args.get(2, None)
        if n.only_consts():
            outs = []
            for c in n.consts:
                from .interp import Args
                has = None if d is None else self.b_hasattr(
                    Args([o, const(c.v)], {}), node, st)
                if has is not None and has.is_const():
                    outs.append(
                        self.I.getattr_(o, c.v, st, node)
                        if has.const() else d)
                    continue
                saved = dict(self.I.A.exc)
                try:
                    outs.append(self.I.getattr_(o, c.v, st, node))
                except Exception as e:
                    if type(e).__name__ != "Bottom":
                        raise
                    if d is None:
                        raise
                if d is not None:
                    self.I.A.exc = saved
                    outs.append(d)
            return joinall(outs)
        outs = [d] if d is not None else []
        fn = n.f.get("attrof")
        for x in o.objs:
            h = self.heap(x, st)
            if isinstance(h, (Inst,)):
                outs += list(h.fields.values())
        outs.append(prim("unk", lab=self.labs([o, n], st)))
        return joinall(outs)

    def b_hasattr(self, args, node, st):
        o, n = args.get(0, None, UNK), args.get(1, None, UNK)
        if not n.is_const():
            return BOOL
        nm = n.const()
        res = set()
        for a in self.alts(o):
            x = a.single()
            h = self.heap(x, st)
            if x is None:
                if "unk" in a.prims:
                    res |= {True, False}
                for c in a.consts:
                    res.add(hasattr(c.v, nm))
                for p in a.prims - {"unk"}:
                    t = {"int": 1, "float": 1.0, "str": "", "bool": True,
                         "none": None}.get(p, LookupError)
                    if t is LookupError:
                        res |= {True, False}
                    else:
                        res.add(hasattr(t, nm))
            elif isinstance(h, Inst):
                if nm in h.fields:
                    res |= {True, False} if nm in h.maybe else {True}
                elif self.I.class_attr(h.cls, nm, st)[0] is not None:
                    res.add(True)
                elif self.I.ext_bases_unknown(h.cls, st):
                    res |= {True, False}
                else:
                    res.add(False)
            elif isinstance(h, Seq):
                t = {"list": [], "tuple": (), "set": set(),
                     "iter": iter(())}.get(h.typ)
                res.add(hasattr(t, nm))
            elif isinstance(h, Dict):
                res.add(hasattr({}, nm))
            elif isinstance(x, Arr):
                if nm in ("__iter__", "__len__", "shape", "__getitem__",
                          "dtype"):
                    res.add(True)
                else:
                    res |= {True, False}
            elif isinstance(h, Func) or isinstance(x, Bound):
                res.add(hasattr(_sample_fn, nm))
            else:
                res |= {True, False}
        if len(res) == 1:
            return const(res.pop())
        return BOOL

    def b_isinstance(self, args, node, st):
        v, tv = args.get(0, None, UNK), args.get(1, None, UNK)
        res = set()
        for a in self.alts(v):
            res |= self.type_is(a, tv, st)
        lab = v.lab
        if len(res) == 1:
            return const(res.pop(), lab)
        return prim("bool", lab=lab)

    def b_issubclass(self, args, node, st):
        c, tv = args.get(0, None, UNK), args.get(1, None, UNK)
        o = c.single()
        if isinstance(o, Loc) and isinstance(st.heap.get(o), Class):
            ks = self.I.flatten_types(tv, st)
            if ks and not tv.prims:
                return const(any(k in self.I.mro(o, st) for k in ks))
        return BOOL

    def b_slice(self, args, node, st):
        vs = list(args.pos)
        if len(vs) == 1:
            vs = [NONE, vs[0], NONE]
        while len(vs) < 3:
            vs.append(NONE)
        return self.seq(st, node, "slice", vs)

    SORTED = 256

    def b_sorted(self, args, node, st):
        from .interp import Args
        v = args.get(0, None, UNK)
        key = args.kw.get("key")
        rev = self.c(args.kw.get("reverse"), False)
        pre, rest, sp = self.merge_iter(self.iter_alts(v, st, node))
        if isinstance(sp, tuple) and sp[0] == "bag":
            # every element of a set of known constants, in some order
            if not pre and rest is not None:
                pre = [V(E0, E0, c, rest.lab) for c in sp[1]]
                rest = None
            sp = None
        pre = [self.unset(x) for x in pre]
        es = pre + ([rest] if rest is not None else [])
        lab = E0
        ks = []
        if key is not None and not (key.is_const()):
            for e in es:
                if e.bottom():
                    continue
                k = self.I.call(key, Args([e]), node, st)
                ks.append(k)
                lab = lab | self.I.deep_labels(k, st, 2)
        if rest is None and pre and len(ks) == len(pre) <= self.SORTED and all(
            k.is_const() and isinstance(k.const(), (int, float))
            for k in ks
        ) and len({k.const() for k in ks}) == len(ks) and rev in (
            True, False
        ) and all(k.const() == k.const() for k in ks):
            # known distinct keys: the order is known
            o = sorted(range(len(ks)), key=lambda i: ks[i].const(),
                       reverse=rev)
            lab = (lab | self.labs(es, st, 2)) - {"setorder"}
            return self.seq(st, node, "list",
                            [pre[i].withlab(lab) for i in o])
        lab = lab | self.labs(es, st, 2)
        lab = lab - {"setorder"}
        ks = pre if key is None or key.is_const() else ks
        if rest is None and len(ks) == len(pre) <= self.SORTED and rev in (
                True, False) and any(not k.is_const() for k in ks):
            o = self.row_order(ks, rev, st)
            if o is not None:
                return self.seq(st, node, "list",
                                [pre[i].withlab(lab) for i in o])
        if rest is None and all(e.is_const() for e in pre) and key is None:
            try:
                r = sorted((e.const() for e in pre), reverse=rev is True)
                return self.seq(st, node, "list",
                                [const(x, lab) for x in r])
            except TypeError:
                self.raise_alt("TypeError", st)
                from .interp import Bottom
                raise Bottom()
        if rest is None and len(pre) > 1 and len(ks) == len(pre) and all(
                "poly" in k.f and "iv" not in k.f for k in ks):
            # all orders are possible
            pre = [V(x.objs, x.prims, x.consts, x.lab,
                     {**x.f, "fn": "sorted()"}) for x in pre]
            es = pre
        e = self.unset(joinall(es, BOT)).withlab(lab)
        nsp = ("sorted", sp) if sp is not None else None
        if rest is None and len(pre) <= 1:
            return self.seq(st, node, "list", pre, None, nsp)
        if rest is None:
            # same number of elements, order unknown
            return self.seq(st, node, "list", [e] * len(pre), None, nsp)
        return self.seq(st, node, "list", (), e, nsp)

    def row_order(self, vs, rev, st):
        """order of rows that differ in a known place"""
        def row(v):
            o = v.single()
            hp = st.heap.get(o) if isinstance(o, Loc) else None
            if isinstance(hp, Seq) and hp.typ in ("list", "tuple") and \
                    hp.rest is None:
                return hp.prefix
            return None
        rows = [row(v) for v in vs]
        if all(r is None for r in rows) and all(
                "poly" in v.f or v.is_const() for v in vs):
            # numbers whose ranges tell their order
            left, out = list(range(len(vs))), []
            while left:
                i = self.extreme([vs[j] for j in left], max if rev else min)
                if i is None:
                    return None
                out.append(left.pop(i))
            return out
        if any(r is None for r in rows):
            return None

        def cmp(i, j):
            for x, y in zip(rows[i], rows[j]):
                if not x.is_const() or not y.is_const():
                    raise TypeError
                x, y = x.const(), y.const()
                if x < y:
                    return -1
                if y < x:
                    return 1
            return (len(rows[i]) > len(rows[j])) - (
                len(rows[i]) < len(rows[j]))
        try:
            return sorted(range(len(rows)), key=functools.cmp_to_key(cmp),
                          reverse=rev)
        except TypeError:
            return None

    def unset(self, v):
        if "setorder" in v.lab:
            return V(v.objs, v.prims, v.consts, v.lab - {"setorder"}, v.f)
        return v

    def b_sum(self, args, node, st):
        v = args.get(0, "iterable", UNK)
        start = args.get(1, "start")
        pre, rest, sp = self.merge_iter(self.iter_alts(v, st, node))
        acc = start if start is not None else const(0)
        for x in pre:
            acc = self.binop(ast.Add(), acc, x, st, node)
        if rest is not None and not rest.bottom():
            for _ in range(2):
                acc2 = self.binop(ast.Add(), acc, rest, st, node)
                acc = join(acc, acc2)
            if acc.only_consts():
                acc = V(E0, frozenset(D.kind_of_const(c.v)
                                      for c in acc.consts), E0, acc.lab, {})
            else:
                f = {k: x for k, x in acc.f.items() if k != "iv"}
                iv = interval(rest)
                if iv and iv[0] >= 0:
                    f["iv"] = (0, INF, False, True)
                prims = acc.prims | {D.kind_of_const(c.v)
                                     for c in acc.consts}
                acc = V(acc.objs, prims, E0, acc.lab, f)
        return self.unset(acc) if isinstance(
            self.heap(v.single(), st), Seq) and True else acc

    def b_type(self, args, node, st):
        v = args.get(0, None, UNK)
        outs = []
        for a in self.alts(v):
            o = a.single()
            h = self.heap(o, st)
            if isinstance(h, (Inst, Opaque)) and h.cls is not None:
                outs.append(obj(h.cls))
            elif isinstance(h, Seq) and h.typ in ("list", "tuple", "set"):
                outs.append(self.builtin(h.typ))
            elif isinstance(h, Dict):
                outs.append(self.builtin("dict"))
            elif isinstance(o, Arr):
                outs.append(obj(Ext("numpy.ndarray")))
            elif o is None:
                for c in a.consts:
                    k = D.kind_of_const(c.v)
                    outs.append(obj(Ext(
                        "types.NoneType" if k == "none" else "datetime." + k))
                        if k in ("none", "datetime", "date", "time",
                                 "timedelta") else self.builtin(k))
                for p in a.prims:
                    if p in ("int", "float", "str", "bool"):
                        outs.append(self.builtin(p))
                    elif p in ("datetime", "date", "time", "timedelta"):
                        outs.append(obj(Ext("datetime." + p)))
                    elif p == "none":
                        outs.append(obj(Ext("types.NoneType")))
                    else:
                        outs.append(prim("unk"))
            else:
                outs.append(UNK)
        return joinall(outs, UNK)

    def b_vars(self, args, node, st):
        return UNK.withlab(self.labs(args.all(), st))

    def endless(self, its):
        """cut endless repetitions to the length of the other parts"""
        if not any(s == FOREVER for p, r, s in its) or all(
                s == FOREVER for p, r, s in its):
            return its
        ns = [len(p) for p, r, s in its if r is None]
        n = min(ns) if ns else 0
        return [(p, r, s) if s != FOREVER else
                ([r] * n, None if ns else r, None) for p, r, s in its]

    def b_zip(self, args, node, st):
        its = [self.merge_iter(self.iter_alts(x, st, node))
               for x in args.pos]
        if args.rest is not None:
            # zip(*rows): transposition of an unknown number of rows
            try:
                pre, rest, sp = self.merge_iter(
                    self.iter_alts(args.rest, st, node))
            except Exception as e:
                if type(e).__name__ != "Bottom":
                    raise
                return self.seq(st, node, "iter", (), UNK)
            inner = []
            if not its:
                cols = [self.seq(st, node, "tuple", (), x, args.restsp,
                                 extra=("zs", i))
                        for i, x in enumerate(pre)]
                r = self.seq(st, node, "tuple", (), rest, args.restsp,
                             extra=("zs", "r")) if rest is not None else None
                return self.seq(st, node, "iter", cols, r, sp)
            its.append((pre, rest, sp))
        if not its:
            return self.seq(st, node, "iter", ())
        its = self.endless(its)
        sp = self.merge_spaces([s for p, r, s in its], st, node)
        if all(r is None for p, r, s in its):
            n = min(len(p) for p, r, s in its)
            pre = [self.seq(st, node, "tuple", [p[i] for p, r, s in its],
                            extra=("zip", i)) for i in range(n)]
            return self.seq(st, node, "iter", pre, None, sp, extra="zip")
        # keep the exact common prefix
        n = 0
        if all(p for p, r, s in its):
            n = min(len(p) for p, r, s in its)
        pre = [self.seq(st, node, "tuple", [p[i] for p, r, s in its],
                        extra=("zip", i)) for i in range(n)]
        es = []
        empty = False
        for p, r, s in its:
            left = list(p[n:]) + ([r] if r is not None else [])
            if not left:
                empty = True
            es.append(joinall(left, BOT))
        rest = None
        if not empty:
            if any(e.bottom() for e in es):
                rest = BOT
            else:
                rest = self.seq(st, node, "tuple", es, extra=("zip", "r"))
        return self.seq(st, node, "iter", pre, rest, sp, extra="zip")

    def b_property(self, args, node, st):
        return UNK

    def b_object(self, args, node, st):
        return obj(self.new(st, node, Opaque(None, Plain(), "object")))

    def _exec(self, what, args, node, st):
        self.I.emit("exec", node, what=what, args=args, st=st)
        return prim("unk", lab=self.labs(args.all(), st))

    def b_eval(self, args, node, st):
        return self._exec("eval", args, node, st)

    def b_exec(self, args, node, st):
        return self._exec("exec", args, node, st)

    def b_compile(self, args, node, st):
        return self._exec("compile", args, node, st)

    def b___import__(self, args, node, st):
        n = args.get(0, "name", UNK)
        if n.is_const():
            top = str(n.const()).split(".")[0]
            if self.I.missing(top):
                self.I.raise_("ModuleNotFoundError", st, node)
            if top == self.I.prog.package:
                return obj(self.I.load_module(top, st))
            return obj(Ext(top))
        self._exec("__import__", args, node, st)
        return UNK

    def x_importlib_import_module(self, args, node, st):
        n = args.get(0, "name", UNK)
        if n.is_const():
            nm = str(n.const())
            top = nm.split(".")[0]
            if self.I.missing(top):
                self.I.raise_("ModuleNotFoundError", st, node)
            if top == self.I.prog.package:
                l = self.I.load_module(nm, st)
                return obj(l) if l is not None else UNK
            return obj(Ext(nm))
        return self._exec("__import__", args, node, st)

    def x_importlib_util_find_spec(self, args, node, st):
        n = args.get(0, "name", UNK)
        if n.is_const():
            top = str(n.const()).split(".")[0]
            if self.I.missing(top):
                return NONE
            return obj(self.new(st, node, Opaque(None, Plain(), "spec")))
        return UNK

    def _loads_exec(self, args, node, st):
        return self._exec("pickle", args, node, st)

    x_pickle_load = x_pickle_loads = _loads_exec
    x_marshal_loads = x_yaml_load = x_os_system = _loads_exec
    x_subprocess_run = x_subprocess_call = _loads_exec
    x_subprocess_Popen = x_runpy_run_path = _loads_exec
    x_pandas_read_pickle = _loads_exec

    # ------------------------------------------------------------ numpy
    def num_elem(self, a):
        """numeric part of an element value"""
        return a

    def np_elem(self, name, args, node, st):
        v = self.args0(args)
        out = args.get(None, "out") if "out" in args.kw else None
        h = self.heap(v.single(), st)
        dig = None
        if name in ("round", "around"):
            d = self.c(args.get(1, "ndigits", args.get(None, "decimals")), 9)
            if d != 9 and not (poly.num(d) and d <= 2) or d == 9 and (
                    len(args.pos) > 1 or args.kw or args.rest is not None):
                name = "fine round"
            if d != 9 and poly.num(d):
                dig = int(d)
            elif name == "fine round":
                dig = LookupError
        if isinstance(h, (Inst, Opaque)) and name in ("abs", "round"):
            return prim("unk", lab=self.labs([v], st))
        if isinstance(h, Seq) and h.typ in ("list", "tuple"):
            v = self.to_array(v, st, node, extra=("el", name))
        r = self.elementwise(
            lambda x: self.elem1(name, x, node, st, dig), [v], st, node,
            dtype="bool" if name in ("isnan", "isfinite", "isinf",
                                     "logical_not") else None)
        if name in ("logical_not", "invert"):
            o = v.single()
            if isinstance(o, Arr):
                r = self.invert_mask(o, v, r, st)
        if out is not None:
            self.store_out(out, r, st, node)
            return out
        return r

    def applied(self, name, x, f, *ys):
        """facets of the value `name(x, *ys)` of known forms"""
        if poly.STATE["on"] and all(not v.objs and not v.f.get("fn")
                                    for v in (x, *ys)):
            p = poly.term(name, *[poly.of(v) for v in (x, *ys)])
            if p is not None:
                f["poly"] = p
                r = poly.interval(p)
                if r is not None:
                    f["iv"] = r
        return f

    def store_out(self, out, r, st, node):
        self.setitem(out, self.seq(st, node, "slice", [NONE, NONE, NONE],
                                   extra="out"), r, st, node)

    def elem1(self, name, x, node, st, dig=None):
        if x.bottom():
            return x
        lab = x.lab
        if x.objs and not (x.prims or x.consts):
            return prim("unk", lab=self.labs([x], st))
        ks = self.kinds(x)
        if ks <= {"str", "none"}:
            self.raise_alt("TypeError", st)
            return BOT
        ang = x.f.get("ang")
        if name in TRIG:
            if ang is not None:
                k = D.ang_kind(ang)
                self.I.emit("trig", node, fn=name, ang=k, st=st)
            if x.is_const() and self.I.grids and hasattr(
                    math, name) and poly.num(x.const()):
                return V(E0, E0, frozenset((Const(getattr(math, name)(
                    x.const())),)), lab, {})
            return V(E0, frozenset(("float",)), E0, lab,
                     self.applied(name, x, {}))
        if name in ARC:
            f = {"ang": RAD, "raw": True}
            if name in ("arccos", "acos"):
                f["iv"] = (0, math.pi, False, False)
            fn = getattr(math, name.replace("arc", "a"), None)
            if x.is_const() and self.I.grids and fn and poly.num(x.const()):
                try:
                    return V(E0, E0, frozenset((Const(fn(x.const())),)),
                             lab, f)
                except ValueError:
                    if name.startswith("arc"):  # numpy does not raise
                        return V(E0, E0, frozenset((Const(math.nan),)), lab)
                except OverflowError:
                    pass
            return V(E0, frozenset(("float",)), E0, lab,
                     self.applied(name, x, f))
        if name in ("deg2rad", "radians", "rad2deg", "degrees"):
            f = {}
            todeg = name in ("rad2deg", "degrees")
            if ang is not None:
                k = D.ang_kind(ang)
                if k == ("deg" if todeg else "rad"):
                    self.I.emit("ang-conv", node, fn=name, ang=k, st=st)
                f["ang"] = ang * (DEG if todeg else 1 / DEG)
                if x.f.get("raw"):
                    f["raw"] = True
            if x.f.get("role"):
                f["role"] = x.f["role"]
            iv = interval(x)
            if iv:
                m = DEG if todeg else 1 / DEG
                f["iv"] = (iv[0] * m, iv[1] * m, iv[2], iv[3])
            if ang is None and x.only_consts():
                f["ang"] = DEG if todeg else RAD
            if x.is_const() and self.I.grids and poly.num(x.const()):
                f.pop("iv", None)
                return V(E0, E0, frozenset((Const((
                    math.degrees if todeg else math.radians)(
                        x.const())),)), lab, f)
            p = x.f.get("poly")
            if p is not None:
                f["poly"] = poly.mul(p, (((), DEG if todeg else 1 / DEG),))
            return V(E0, frozenset(("float",)), E0, lab, f)
        if name in ("isnan", "isfinite", "isinf"):
            return V(E0, frozenset(("bool",)), E0, lab, {})
        if name in ("logical_not", "invert"):
            if x.is_const() and isinstance(x.const(), bool):
                return const(not x.const(), lab)
            if x.prims == {"bool"} and not x.consts and not x.objs:
                return self.negated(x)
            return V(E0, frozenset(("bool",)), E0, lab, {})
        if name == "abs" and x.is_const() and ks == {"timedelta"}:
            return const(abs(x.const()), lab)
        if x.is_const() and ks & {"int", "float", "bool"}:
            c = x.const()
            if dig is not None:
                fn = None if dig is LookupError else (
                    lambda y: round(y, dig))
            else:
              fn = {"abs": abs, "fabs": abs, "absolute": abs,
                  "square": lambda y: y * y, "sqrt": math.sqrt,
                  "exp": math.exp, "log": math.log, "log2": math.log2,
                  "log10": math.log10, "cbrt": lambda y: math.copysign(
                      abs(y) ** (1 / 3), y),
                  "cosh": math.cosh, "sinh": math.sinh, "tanh": math.tanh,
                  "rint": lambda y: float(round(y)),
                  "trunc": math.trunc, "sign": lambda y: (y > 0) - (y < 0),
                  "float64": float, "float_": float, "round": round,
                  "floor": math.floor, "ceil": math.ceil}.get(name)
            if fn is not None:
                try:
                    return V(E0, E0, frozenset((Const(fn(c)),)), lab,
                             {k: y for k, y in x.f.items() if k in (
                                 "ang", "role")})
                except (ValueError, OverflowError):
                    pass
        f = {}
        iv = interval(x)
        if name in ("abs", "fabs", "absolute"):
            f = {k: y for k, y in x.f.items() if k in (
                "ang", "role", "z", "neutral")}
            if "ang" in f and x.f.get("raw"):
                f["raw"] = True
            if iv:
                lo, hi = iv[0], iv[1]
                if lo >= 0:
                    f["iv"] = iv
                elif hi <= 0:
                    f["iv"] = (-hi, -lo, iv[3], iv[2])
                else:
                    f["iv"] = (0, max(-lo, hi), False, False)
            else:
                f["iv"] = (0, INF, False, False)
            if "poly" in x.f:
                if iv and iv[0] >= 0:
                    f["poly"] = x.f["poly"]
                elif iv and iv[1] <= 0:
                    f["poly"] = poly.neg(x.f["poly"])
                elif poly.STATE["on"]:
                    self.applied("abs", x, f)
                else:
                    f["fn"] = "abs()"
        elif name in ("square", "sqrt"):
            if x.f.get("z"):
                f["z"] = x.f["z"]
            f["iv"] = (0, INF, False, False)
            if iv and (iv[0] > 0 or (iv[0] == 0 and iv[2])):
                f["iv"] = (0, INF, True, False)
            if "poly" in x.f and not x.f.get("fn"):
                p = x.f["poly"]
                p = poly.sqrt(p) if name == "sqrt" else poly.compact(
                    poly.mul(p, p) or poly.term("mul", p, p))
                if p is not None and len(p) <= poly.MAXTERMS:
                    f["poly"] = p
                    r = poly.interval(p)
                    if r is not None:
                        f["iv"] = r
        elif name == "exp":
            f["iv"] = (0, INF, True, False)
            self.applied(name, x, f)
        elif name == "sign":
            f["iv"] = (-1, 1, False, False)
            self.applied(name, x, f)
        elif name in poly.UNARY:
            self.applied(name, x, f)
        elif name in ("round", "around", "floor", "ceil", "rint", "trunc",
                      "float64", "float_", "nan_to_num", "real",
                      "positive", "negative", "int_", "int64", "float32",
                      "fix", "fine round"):
            f = {k: y for k, y in x.f.items() if k in (
                "ang", "role", "raw", "neutral")}
            if name not in ("float64", "float_", "positive", "real"):
                f["trunc"] = True
                if "poly" in x.f and name not in ("nan_to_num", "negative",
                                                  "float32", "fine round"):
                    f["fn"] = name + "()"
            elif "poly" in x.f:
                f["poly"] = x.f["poly"]
            if name == "negative":
                f.pop("trunc")
                if "poly" in x.f:
                    f["poly"] = poly.neg(x.f["poly"])
            if name == "negative" and "ang" in f:
                f["raw"] = True
        kind = "float"
        if name in ("abs", "round", "sign", "square", "fine round"
                    ) and ks <= {"int", "bool"}:
            f.pop("fn" if name == "round" else "", None)
            kind = "int"
        if "unk" in ks:
            kind = "unk"
        return V(E0, frozenset((kind,)), E0, lab, f)

    def np_elem2(self, name, args, node, st):
        a, b = args.get(0, "x1", UNK), args.get(1, "x2", UNK)
        op = ELEM2[name]()
        a, b = self.arrayish(a, st, node, 0), self.arrayish(b, st, node, 1)
        r = self.binop(op, a, b, st, node)
        if "out" in args.kw and not (
                args.kw["out"].is_const()):
            self.store_out(args.kw["out"], r, st, node)
            return args.kw["out"]
        return r

    def np_pow(self, args, node, st):
        return self.np_elem2("power", args, node, st)

    def arrayish(self, v, st, node, i=0):
        h = self.heap(v.single(), st)
        if isinstance(h, Seq) and h.typ in ("list", "tuple"):
            return self.to_array(v, st, node, extra=("ai", i))
        return v

    def np_logic(self, name, args, node, st):
        a, b = args.get(0, "x1", UNK), args.get(1, "x2", UNK)
        a, b = self.arrayish(a, st, node, 0), self.arrayish(b, st, node, 1)
        if name in CMP2:
            return self.compare(CMP2[name](), a, b, st, node)
        is_and = name == "logical_and"

        def fn(x, y):
            if x.bottom() or y.bottom():
                return BOT
            tx, ty = self.I.truth(x, st), self.I.truth(y, st)
            lab = x.lab | y.lab
            out = set()
            for p in tx:
                for q in ty:
                    out.add((p and q) if name == "logical_and" else
                            (p or q) if name == "logical_or" else
                            (p != q))
            if len(out) == 1:
                return const(out.pop(), lab)
            return V(E0, frozenset(("bool",)), E0, lab,
                     self.connected(LOGIC2[name], x, y))
        r = self.elementwise(fn, [a, b], st, node, dtype="bool")
        k = "nonzero" if is_and else "eqzero"
        z = frozenset(a.f.get(k) or ()) | frozenset(b.f.get(k) or ())
        if z:
            r = r.withf(**{k: z})
        return r

    def np_reduce(self, name, args, node, st):
        v = args.get(0, "a", None) or args.get(0, "x", None) or UNK
        pos = 2 if name in ("percentile", "quantile") else 1
        ax = args.get(pos, "axis")
        axis = self.c(ax, None)
        if axis is LookupError:
            axis = None
        w = args.get(2, "weights") if name == "average" else None
        lab = E0
        if w is not None:
            lab = self.labs([w], st)
            dv, dw = self.desc(v, st, node), self.desc(w, st, node)
            if dv.rank >= 1 and dw.rank == 1:
                k = axis if axis is not None else 0
                if -dv.rank <= k < dv.rank and is_r(dv.axes[k]) and is_r(
                        dw.axes[0]):
                    self.merge_spaces([dv.axes[k][1], dw.axes[0][1]], st,
                                      node)
        if name in ("percentile", "quantile"):
            lab = lab | self.labs([args.get(1, "q", UNK)], st)
        if isinstance(axis, tuple):
            axis = None
        cum = name in ("cumsum", "cumprod")

        def fn(x):
            if x.bottom():
                return x
            if name in RED_SAME:
                f = {k: y for k, y in x.f.items()
                     if k in ("ang", "role", "raw", "iv", "neutral")}
                if name in ("min", "amin", "max", "amax", "nanmin",
                            "nanmax"):
                    if "z" in x.f:
                        f["z"] = x.f["z"]
                    if x.only_consts():
                        return V(E0, E0, x.consts, x.lab, f)
                else:
                    iv = interval(x)
                    if iv:
                        f["iv"] = iv
                kind = x.prims | {D.kind_of_const(c.v) for c in x.consts}
                if name not in ("min", "amin", "max", "amax"):
                    kind = {"float"} if "unk" not in kind else {"unk"}
                return V(x.objs, frozenset(kind), E0, x.lab, f)
            f = {}
            if "z" in x.f and name in ("sum", "nansum"):
                f["z"] = x.f["z"]
            iv = interval(x)
            if name in ("std", "var", "nanstd", "ptp"):
                f["iv"] = (0, INF, False, False)
            elif iv and iv[0] >= 0:
                f["iv"] = (0, INF, False, False)
            if x.f.get("role") and name in ("sum", "nansum", "std",
                                            "cumsum"):
                f["role"] = x.f["role"]
            kind = "unk" if "unk" in x.prims or x.objs else (
                "float" if "float" in self.kinds(x) else "int")
            if name in ("std", "var"):
                kind = "float"
            return V(E0, frozenset((kind,)), E0, x.lab, f)
        o = v.single()
        h = self.heap(o, st)
        if isinstance(h, Seq) and h.typ == "iter":
            return fn(self.elements(v, st, node)[0]).withlab(lab)
        if isinstance(h, Seq) and name in ("sum",) and h.elem().objs and \
                any(isinstance(self.heap(x, st), (Inst, Opaque))
                    for x in h.elem().objs):
            from .interp import Args
            return self.b_sum(Args([v]), node, st)
        if cum:
            a = self.arrayish(v, st, node)
            return self.elementwise(fn, [a], st, node).withlab(lab)
        r = self.reduce(v, axis, fn, st, node)
        zero = None
        if r.bottom():
            d = self.desc(v, st, node)
            if d.all().bottom():
                # reduction of an empty array
                if name in ("sum", "nansum", "prod"):
                    return const(0.0 if name != "prod" else 1.0)
                if name in ("mean", "average", "std"):
                    return FLOAT
                self.raise_alt("ValueError", st)
                from .interp import Bottom
                raise Bottom()
        if name in ("min", "max", "amin", "amax"):
            self.I.may_raise(st)
        return r.withlab(lab)

    def np_array(self, args, node, st):
        v = args.get(0, "object", UNK)
        cp = self.c(args.get(2, "copy"), True)
        return self.to_array(v, st, node, copy=cp is not False)

    def np_asarray(self, args, node, st):
        return self.to_array(args.get(0, "a", UNK), st, node)

    np_asanyarray = np_ascontiguousarray = np_asarray

    def np_asarray_chkfinite(self, args, node, st):
        v = args.get(0, "a", UNK)
        r = self.to_array(v, st, node)
        # rejects nan and inf
        d = self.desc(r, st, node).all()
        if (d.f.get("fin") or not d.bottom() and d.only_consts()) and all(
            isinstance(c.v, (int, float)) and c.v == c.v
            and abs(c.v) != INF for c in d.consts
        ) or d.bottom() and self.no_elements(r, st, node):
            return r
        self.raise_alt("ValueError", st)
        ds = self.desc(r, st, node)
        if len(self.alts(r)) == 1 and all(
            a == "F" or nonempty(a[1]) for a in ds.axes
        ) and any(
            x is not None and x.consts and x.only_consts() and all(
                isinstance(c.v, float) and (c.v != c.v or abs(c.v) == INF)
                for c in x.consts)
            for x in list(ds.fields or ()) + [ds.elem]
        ):
            from .interp import Bottom
            raise Bottom()
        return r

    def no_elements(self, v, st, node):
        """an array of size 0 for certain"""
        d = self.desc(v, st, node)
        return any(a == ("R", ("fix", 0)) or a == "F" and d.fields == ()
                   and d.rest is None for a in d.axes)

    def np_copy(self, args, node, st):
        return self.to_array(args.get(0, "a", UNK), st, node, copy=True)

    def np_atleast_1d(self, args, node, st):
        return self._atleast(args, node, st, 1)

    def np_atleast_2d(self, args, node, st):
        return self._atleast(args, node, st, 2)

    def _atleast(self, args, node, st, n):
        v = self.to_array(args.get(0, "arys", UNK), st, node)
        outs = []
        for a in self.alts(v):
            o = a.single()
            if isinstance(o, Arr) and len(o.axes) < n:
                ax = (R(ONE),) * (n - len(o.axes)) + o.axes
                outs.append(V(frozenset((Arr(o.buf, ax, o.sel),)),
                              lab=a.lab, f=a.f))
            elif o is None and "unk" not in a.prims:
                outs.append(self.arr(st, node, (R(ONE),) * n, None, a,
                                     None, None, "al"))
            else:
                outs.append(a)
        return joinall(outs, UNK)

    def np_expand_dims(self, args, node, st):
        v = self.to_array(args.get(0, "a", UNK), st, node)
        ax = self.c(args.get(1, "axis"), 0)
        outs = []
        for a in self.alts(v):
            o = a.single()
            if isinstance(o, Arr) and isinstance(ax, int):
                k = ax if ax >= 0 else len(o.axes) + 1 + ax
                axs = o.axes[:k] + (R(ONE),) + o.axes[k:]
                outs.append(V(frozenset((Arr(o.buf, axs, o.sel),)),
                              lab=a.lab))
            else:
                outs.append(a)
        return joinall(outs, UNK)

    def np_squeeze(self, args, node, st):
        v = self.to_array(args.get(0, "a", UNK), st, node)
        outs = []
        for a in self.alts(v):
            o = a.single()
            if isinstance(o, Arr):
                axs = tuple(x for x in o.axes if x == "F" or x[1] != ONE)
                outs.append(self.sub(o.buf, axs, o.sel, st).withlab(a.lab))
            else:
                outs.append(a)
        return joinall(outs, UNK)

    def np_ravel(self, args, node, st):
        return self.ravel(self.to_array(args.get(0, "a", UNK), st, node),
                          st, node)

    def np_reshape(self, args, node, st):
        v = self.to_array(args.get(0, "a", UNK), st, node)
        s = args.get(1, "newshape")
        return self.reshape(v, [s] if s is not None else None, st, node)

    def np_transpose(self, args, node, st):
        v = self.to_array(args.get(0, "a", UNK), st, node)
        outs = []
        for a in self.alts(v):
            o = a.single()
            outs.append(self.arr_attr(o, "T", st, node).withlab(a.lab)
                        if isinstance(o, Arr) else a)
        return joinall(outs, UNK)

    def np_flip(self, args, node, st):
        v = self.to_array(args.get(0, "m", UNK), st, node)
        ax = self.c(args.get(1, "axis"), None)
        return self.flip(v, ax if ax is not LookupError else None, st, node)

    def np_flipud(self, args, node, st):
        return self.flip(self.to_array(args.get(0, "m", UNK), st, node), 0,
                         st, node)

    def np_fliplr(self, args, node, st):
        return self.flip(self.to_array(args.get(0, "m", UNK), st, node), 1,
                         st, node)

    def np_column_stack(self, args, node, st):
        return self.column_stack(args.get(0, "tup", UNK), st, node)

    def np_row_stack(self, args, node, st):
        return self.row_stack(self.listify(args.get(0, "tup", UNK), st,
                                           node), st, node)

    np_vstack = np_row_stack

    def listify(self, v, st, node):
        h = self.heap(v.single(), st)
        if isinstance(h, Seq) and h.typ == "iter":
            self.I.emit("stack-generator", node, st=st)
            self.raise_alt("TypeError", st)
            from .interp import Bottom
            raise Bottom()
        return v

    def np_hstack(self, args, node, st):
        v = args.get(0, "tup", UNK)
        ps, exact, sp = self.parts(v, st, node)
        ds = [self.desc(p, st, node) for p in ps]
        ax = 0 if all(d.rank <= 1 for d in ds) else 1
        return self.concat(ds, ax, exact, st, node)

    def np_concatenate(self, args, node, st):
        v = args.get(0, "arrays", UNK)
        ax = self.c(args.get(1, "axis"), 0)
        ps, exact, sp = self.parts(self.listify(v, st, node), st, node)
        if any("unk" in p.prims for p in ps):
            return prim("unk", lab=self.labs(ps, st))
        ds = [self.desc(p, st, node) for p in ps]
        if ds and all(d.rank == 0 for d in ds) and not any(
            d.all().objs for d in ds
        ):
            self.raise_alt("ValueError", st)
            if not all("unk" in d.all().prims for d in ds):
                from .interp import Bottom
                raise Bottom()
        return self.concat(ds, ax if isinstance(ax, int) else 0, exact, st,
                           node)

    def np_append(self, args, node, st):
        a, b = args.get(0, "arr", UNK), args.get(1, "values", UNK)
        ax = self.c(args.get(2, "axis"), None)
        ds = [self.desc(a, st, node), self.desc(b, st, node)]
        if ax is None:
            return self.arr(st, node, (R(None),), None,
                            joinall([d.all() for d in ds]))
        return self.concat(ds, ax if isinstance(ax, int) else 0, True, st,
                           node)

    def np_stack(self, args, node, st):
        v = args.get(0, "arrays", UNK)
        ax = self.c(args.get(1, "axis"), 0)
        ps, exact, sp = self.parts(v, st, node)
        ds = [self.desc(p, st, node) for p in ps]
        if exact and ds and all(d.rank == 1 for d in ds):
            d = self.desc_seq(Seq("list", ps), st, node, 0)
            axes = d.axes
            if ax in (1, -1):
                axes = tuple(reversed(axes))
            return self.from_desc(Desc(axes, d.fields, d.rest, d.elem,
                                       d.lab), st, node)
        if ds and all(d.rank == ds[0].rank for d in ds):
            j = self.join_desc(ds)
            n = j.rank + 1
            k = ax if isinstance(ax, int) else 0
            if k < 0:
                k += n
            axes = list(j.axes)
            axes.insert(k, R(sp))
            return self.from_desc(Desc(axes, j.fields, j.rest, j.elem,
                                       j.lab), st, node)
        return prim("unk", lab=self.labs(ps, st))

    def np_dstack(self, args, node, st):
        from .interp import Args
        return self.np_stack(Args([args.get(0, "tup", UNK), const(-1)]),
                             node, st)

    def shape_axes(self, s, st):
        """axes and (number of fields) for a shape value"""
        vs = None
        o = s.single()
        h = self.heap(o, st)
        if isinstance(h, Seq):
            if h.rest is not None:
                return None, None
            vs = list(h.prefix)
        elif o is None:
            vs = [s]
        if vs is None:
            return None, None
        axes = []
        nf = None
        for i, x in enumerate(vs):
            k = x.const() if x.is_const() else None
            if isinstance(k, int) and not isinstance(k, bool) and \
                    0 < k <= 12 and i == len(vs) - 1 and k > 1:
                axes.append("F")
                nf = k
            elif k == 1:
                axes.append(R(ONE))
            elif "dim" in x.f:
                axes.append(R(x.f["dim"]))
            else:
                axes.append(R(None))
        return axes, nf

    def filled(self, s, v, node, st, extra=None, dtype=None):
        r = self._filled(s, v, node, st, extra, dtype)
        return r.withlab(self.I.deep_labels(s, st, 1))

    def _filled(self, s, v, node, st, extra=None, dtype=None):
        axes, nf = self.shape_axes(s, st)
        if axes is None:
            return self.arr(st, node, (R(None),), None, v, None, dtype,
                            extra)
        iv = interval(s)
        if len(axes) == 1 and s.is_const() and isinstance(
            s.const(), (int, float)
        ) and s.const() < 0:
            self.raise_alt("ValueError", st)
            from .interp import Bottom
            raise Bottom()
        if nf:
            return self.arr(st, node, axes, [v] * nf, None, None, dtype,
                            extra)
        if any(x.is_const() and x.const() == 0 for x in (
            [s] if s.is_const() else [])
        ):
            v = BOT
        return self.arr(st, node, axes, None, v, None, dtype, extra)

    def np_zeros(self, args, node, st):
        return self.filled(args.get(0, "shape", UNK), const(0.0), node, st)

    def np_ones(self, args, node, st):
        return self.filled(args.get(0, "shape", UNK), const(1.0), node, st)

    def np_empty(self, args, node, st):
        return self.filled(args.get(0, "shape", UNK), BOT, node, st)

    def np_full(self, args, node, st):
        return self.filled(args.get(0, "shape", UNK),
                           args.get(1, "fill_value", UNK), node, st)

    def _like(self, args, node, st, v):
        d = self.desc(args.get(0, "a", UNK), st, node)
        if d.rank == 0:
            return self.arr(st, node, (), None, v)
        if "F" in d.axes and d.fields is not None:
            return self.arr(st, node, d.axes, [v] * len(d.fields), None,
                            v if d.rest is not None else None)
        return self.arr(st, node, [R(None) if a == "F" else a
                                   for a in d.axes], None, v)

    def np_zeros_like(self, args, node, st):
        return self._like(args, node, st, const(0.0))

    def np_ones_like(self, args, node, st):
        return self._like(args, node, st, const(1.0))

    def np_empty_like(self, args, node, st):
        return self._like(args, node, st, BOT)

    def np_full_like(self, args, node, st):
        return self._like(args, node, st, args.get(1, "fill_value", UNK))

    def np_eye(self, args, node, st):
        return self.arr(st, node, (R(None), R(None)), None, FLOAT)

    np_identity = np_diag = np_eye

    def np_linspace(self, args, node, st):
        a, b = args.get(0, "start", UNK), args.get(1, "stop", UNK)
        ax = R(("lin", self.I.site(node)))
        if self.isarr(a, st) or self.isarr(b, st):
            da, db = self.desc(a, st, node), self.desc(b, st, node)
            d = da if da.rank >= db.rank else db
            if d.rank:
                el = lambda x: None if x is None else V(
                    E0, frozenset(("float",)), E0, x.lab,
                    {k: y for k, y in x.f.items() if k in (
                        "ang", "role")})
                return self.arr(
                    st, node, (ax,) + d.axes,
                    [el(x) for x in d.fields] if d.fields is not None
                    else None, el(d.elem), el(d.rest),
                    lab=da.lab | db.lab)
        e = self.range_elem(a, b, st)
        return self.arr(st, node, (ax,), None, e)

    def isarr(self, v, st):
        return any(isinstance(o, Arr) or isinstance(
            st.heap.get(o) if isinstance(o, Loc) else None, Seq)
            for o in v.objs)

    def range_elem(self, a, b, st):
        iva, ivb = interval(a), interval(b)
        f = {}
        if iva and ivb:
            f["iv"] = (min(iva[0], ivb[0]), max(iva[1], ivb[1]), False,
                       False)
        for k in ("ang", "role"):
            x, y = a.f.get(k), b.f.get(k)
            if x is not None and (y == x or b.only_consts()):
                f[k] = x
            elif y is not None and a.only_consts():
                f[k] = y
        if "ang" not in f and a.only_consts():
            s = self.full_turn(b)
            if s is not None:
                f["ang"] = s
        lab = self.labs([a, b], st)
        return V(E0, frozenset(("float",)), E0, lab, f)

    def np_arange(self, args, node, st):
        vs = args.pos
        if len(vs) == 1:
            sp = vs[0].f.get("dim")
            f = {"iv": (0, INF, False, False)}
            if sp is not None:
                f["ix"] = (sp, self.I.site(node))
            return self.arr(st, node,
                            (R(sp or ("lin", self.I.site(node))),), None,
                            V(E0, frozenset(("int",)), E0, vs[0].lab, f))
        a = args.get(0, "start", UNK)
        b = args.get(1, "stop", UNK)
        e = self.range_elem(a, b, st)
        kinds = set()
        for v in args.all():
            kinds |= self.kinds(v)
        if kinds <= {"int"}:
            e = V(E0, frozenset(("int",)), E0, e.lab, e.f)
        iv = interval(e)
        return self.arr(st, node, (R(("lin", self.I.site(node))),), None, e)

    def np_meshgrid(self, args, node, st):
        ds = [self.desc(v, st, node) for v in args.pos]
        idx = self.c(args.kw.get("indexing"), "xy")
        if len(ds) == 2 and args.rest is None:
            sp = []
            for d in ds:
                ax = d.axes[0] if d.rank else R(ONE)
                sp.append(ax if is_r(ax) else R(None))
            axes = (sp[1], sp[0]) if idx == "xy" else (sp[0], sp[1])
            return self.seq(st, node, "list", [
                self.arr(st, node, axes, None, d.all().withlab(d.lab),
                         None, None, ("mg", i))
                for i, d in enumerate(ds)])
        return self.seq(st, node, "list", [
            self.arr(st, node, (R(None),) * len(ds), None,
                     d.all().withlab(d.lab), None, None, ("mg", i))
            for i, d in enumerate(ds)])

    def np_where(self, args, node, st):
        c = args.get(0, "condition", UNK)
        a, b = args.get(1, "x"), args.get(2, "y")
        if a is None and len(args.pos) == 1:
            out = []
            for al in self.alts(self.arrayish(c, st, node)):
                o = al.single()
                if not isinstance(o, Arr):
                    return self.seq(st, node, "tuple", [
                        self.arr(st, node, (R(None),), None, INT, None, None,
                                 "wh0")])
                m = self.mask_of(al, st)
                key, pol = (m[0], m[1]) if m else (o.buf.key, True)
                for i, ax in enumerate(o.axes):
                    sp = ax[1] if is_r(ax) else None
                    f = {"iv": (0, INF, False, False)}
                    if sp is not None:
                        f["ix"] = (sp, "where")
                    e = V(E0, frozenset(("int",)), E0,
                          self.labs([al], st), f)
                    nsp = ("flt", sp, (key, pol)) if sp is not None \
                        else None
                    out.append(self.arr(
                        st, node, (R(nsp),), None, e, None, None,
                        ("wh", i), prov=("ixmask", key, pol)))
                break
            return self.seq(st, node, "tuple", out)
        if a is None:
            a = UNK
        if b is None:
            b = UNK
        a, b = self.arrayish(a, st, node, 1), self.arrayish(b, st, node, 2)

        def fn(x, y, z):
            if y.bottom() or z.bottom():
                t = self.I.truth(x, st)
                return joinall([y] * (True in t) + [z] * (False in t),
                               BOT).withlab(x.lab)
            return self.choice(x, y, z, st)
        # the condition refines simple sign tests: |x| style idioms keep
        # their facets through the join
        return self.elementwise(fn, [self.arrayish(c, st, node, 0), a, b],
                                st, node)

    def np_nonzero(self, args, node, st):
        from .interp import Args
        return self.np_where(Args([args.get(0, "a", UNK)]), node, st)

    def np_flatnonzero(self, args, node, st):
        v = self.np_nonzero(args, node, st)
        h = self.heap(v.single(), st)
        return h.prefix[0] if isinstance(h, Seq) and h.prefix else UNK

    def np_argwhere(self, args, node, st):
        return self.arr(st, node, (R(None), R(None)), None, INT)

    def np_argsort(self, args, node, st):
        v = self.arrayish(args.get(0, "a", UNK), st, node)
        d = self.desc(v, st, node)
        ax = d.axes[0] if d.rank else R(None)
        sp = ax[1] if is_r(ax) else None
        f = {}
        if sp is not None:
            f["ix"] = (sp, "argsort")
        e = V(E0, frozenset(("int",)), E0, d.all().lab | d.lab, f)
        key = self.I.site(node)
        return self.arr(st, node,
                        (R(("perm", sp, key) if sp is not None else None),)
                        + tuple(R(None) for _ in d.axes[1:]), None, e,
                        prov=("perm", key))

    def np_lexsort(self, args, node, st):
        d = self.desc(args.get(0, "keys", UNK), st, node)
        sp = d.axes[-1][1] if d.rank and is_r(d.axes[-1]) else None
        key = self.I.site(node)
        return self.arr(st, node, (R(("perm", sp, key) if sp else None),),
                        None, V(E0, frozenset(("int",)), E0, d.all().lab,
                                {}), prov=("perm", key))

    def _argminmax(self, args, node, st):
        v = self.arrayish(args.get(0, "a", UNK), st, node)
        d = self.desc(v, st, node)
        f = {"iv": (0, INF, False, False)}
        if d.rank == 1 and is_r(d.axes[0]) and d.axes[0][1] is not None:
            f["ix"] = (d.axes[0][1], self.I.site(node))
        ax = args.get(1, "axis")
        self.I.may_raise(st)
        lab = d.all().lab | d.lab
        if ax is not None and d.rank > 1:
            return prim("unk", lab=lab)
        return V(E0, frozenset(("int",)), E0, lab, f)

    np_argmin = np_argmax = np_nanargmin = np_nanargmax = _argminmax

    def np_any(self, args, node, st):
        return self._npanyall(args, node, st, True)

    def np_all(self, args, node, st):
        return self._npanyall(args, node, st, False)

    def _npanyall(self, args, node, st, is_any):
        v = args.get(0, "a", UNK)
        ax = args.get(1, "axis")
        if ax is not None and not (ax.is_const() and ax.const() is None):
            a = self.arrayish(v, st, node)
            k = self.c(ax)
            if k is LookupError or not isinstance(k, int):
                return prim("unk", lab=self.labs([v], st))

            def fn(x):
                return x if x.bottom() else prim("bool", lab=x.lab)
            r = self.reduce(a, k, fn, st, node)
            for o in r.objs:
                if isinstance(o, Arr):
                    st.edit(o.buf).dtype = "bool"
            return r
        return self.truth_red(v, st, node, is_any)

    def np_isclose(self, args, node, st):
        a, b = args.get(0, "a", UNK), args.get(1, "b", UNK)
        a, b = self.arrayish(a, st, node, 0), self.arrayish(b, st, node, 1)
        r = self.compare(ast.Eq(), a, b, st, node)
        if b.is_const() and b.const() == 0 and a.f.get("z"):
            r = r.withf(eqzero=a.f["z"])
        return r

    x_math_isclose = np_isclose

    def np_allclose(self, args, node, st):
        return BOOL.withlab(self.labs(args.all(), st))

    np_array_equal = np_allclose

    def np_isscalar(self, args, node, st):
        v = args.get(0, "element", UNK)
        if v.objs and not v.prims and not v.consts:
            return const(False)
        if not v.objs and "unk" not in v.prims:
            return const(True)
        return BOOL

    def np_iterable(self, args, node, st):
        return BOOL

    def np_size(self, args, node, st):
        v = self.to_array(args.get(0, "a", UNK), st, node)
        o = v.single()
        return self.arr_size(o, st) if isinstance(o, Arr) else INT

    def np_shape(self, args, node, st):
        v = self.to_array(args.get(0, "a", UNK), st, node)
        o = v.single()
        return self.arr_shape(o, st, node) if isinstance(o, Arr) else UNK

    def np_ndim(self, args, node, st):
        v = self.to_array(args.get(0, "a", UNK), st, node)
        o = v.single()
        return const(len(o.axes)) if isinstance(o, Arr) else INT

    def np_arctan2(self, args, node, st):
        a, b = args.get(0, "x1", UNK), args.get(1, "x2", UNK)

        def fn(x, y):
            if x.bottom() or y.bottom():
                return BOT
            if self.I.grids and all(z.is_const() and poly.num(z.const())
                                    for z in (x, y)):
                return V(E0, E0, frozenset((Const(math.atan2(
                    x.const(), y.const())),)), x.lab | y.lab,
                    {"ang": RAD, "raw": True})
            return V(E0, frozenset(("float",)), E0, x.lab | y.lab,
                     self.applied("arctan2", x, {"ang": RAD, "raw": True},
                                  y))
        return self.elementwise(fn, [self.arrayish(a, st, node, 0),
                                     self.arrayish(b, st, node, 1)], st,
                                node)

    np_atan2 = np_arctan2

    def np_fmod(self, args, node, st):
        """the remainder has the sign of the first number"""
        a, b = args.get(0, "x1", UNK), args.get(1, "x2", UNK)

        def fn(x, y):
            if x.bottom() or y.bottom():
                return BOT
            iv = interval(x)
            if iv is not None and iv[0] >= 0:
                return self.scalar_binop(ast.Mod(), x, y, st, node)
            if all(z.is_const() and poly.num(z.const()) for z in (x, y)) \
                    and y.const():
                return const(math.fmod(x.const(), y.const()),
                             x.lab | y.lab)
            f = {k: z for k, z in x.f.items() if k in (
                "ang", "role", "raw")}
            return V(E0, frozenset(("float",)), E0, x.lab | y.lab,
                     self.applied("fmod", x, f, y))
        return self.elementwise(fn, [self.arrayish(a, st, node, 0),
                                     self.arrayish(b, st, node, 1)], st,
                                node)

    def np_hypot(self, args, node, st):
        def fn(x, y):
            if x.bottom() or y.bottom():
                return BOT
            if self.I.grids and all(z.is_const() and poly.num(z.const())
                                    for z in (x, y)):
                return const(math.hypot(x.const(), y.const()),
                             x.lab | y.lab)
            return V(E0, frozenset(("float",)), E0, x.lab | y.lab,
                     self.applied("hypot", x, {
                         "iv": (0, INF, False, False)}, y))
        return self.elementwise(
            fn, [args.get(0, "x1", UNK), args.get(1, "x2", UNK)], st, node)

    def _maxmin2(self, nm, args, node, st):
        a, b = args.get(0, "x1", UNK), args.get(1, "x2", UNK)
        big = nm in ("maximum", "fmax")

        def fn(x, y):
            r = join(x, y)
            if x.bottom() or y.bottom():
                return BOT
            if self.I.grids and all(poly.of(z) is not None and not z.objs
                                    and not z.f.get("fn") for z in (x, y)):
                i = self.extreme([x, y], max if big else min)
                if i is not None:
                    return (x, y)[i].withlab(r.lab)
                return V(E0, frozenset(("float",)), E0, r.lab,
                         self.applied("max" if big else "min", x, {
                             k: z for k, z in r.f.items()
                             if k in ("role", "ang", "raw")}, y))
            iva, ivb = interval(x), interval(y)
            f = dict(r.f)
            if iva and ivb:
                g = max if nm in ("maximum", "fmax") else min
                f["iv"] = (g(iva[0], ivb[0]), g(iva[1], ivb[1]), False,
                           False)
            else:
                f.pop("iv", None)
            f.pop("z", None)
            k = r.prims | {D.kind_of_const(c.v) for c in r.consts}
            return V(r.objs, frozenset(k), E0, r.lab, f)
        return self.elementwise(fn, [self.arrayish(a, st, node, 0),
                                     self.arrayish(b, st, node, 1)], st,
                                node)

    def np_maximum(self, args, node, st):
        return self._maxmin2("maximum", args, node, st)

    def np_minimum(self, args, node, st):
        return self._maxmin2("minimum", args, node, st)

    np_fmax, np_fmin = np_maximum, np_minimum

    def np_clip(self, args, node, st):
        v = self.arrayish(args.get(0, "a", UNK), st, node)
        lo, hi = args.get(1, "a_min", UNK), args.get(2, "a_max", UNK)
        il, ih = interval(lo), interval(hi)

        def fn(x):
            f = {k: y for k, y in x.f.items() if k in ("role", "ang")}
            if self.I.grids and not x.objs and not x.f.get("fn") and all(
                    z.is_const() and (z.const() is None or poly.num(
                        z.const())) for z in (lo, hi)) and poly.of(
                            x) is not None:
                for z, big in ((lo, True), (hi, False)):
                    if z.const() is None:
                        continue
                    i = self.extreme([x, z], max if big else min)
                    x = (x, z)[i].withlab(x.lab) if i is not None else V(
                        E0, frozenset(("float",)), E0, x.lab, self.applied(
                            "max" if big else "min", x, dict(f), z))
                return x
            if il and ih:
                f["iv"] = (il[0], ih[1], False, False)
            return V(E0, frozenset(("float",)), E0, x.lab, f)
        return self.elementwise(fn, [v], st, node)

    def np_interp(self, args, node, st):
        lab = self.labs(args.all(), st)
        return self.elementwise(
            lambda x: V(E0, frozenset(("float",)), E0, lab, {}),
            [self.arrayish(args.get(0, "x", UNK), st, node)], st, node)

    def np_dot(self, args, node, st, *extra):
        # also called as np_dot(x, y, st, node) for the @ operator
        if extra:
            x, y, st, node = args, node, st, extra[0]
        else:
            x, y = args.get(0, "a", UNK), args.get(1, "b", UNK)
        x, y = self.arrayish(x, st, node, 0), self.arrayish(y, st, node, 1)
        dx, dy = self.desc(x, st, node), self.desc(y, st, node)
        lab = dx.all().lab | dy.all().lab | dx.lab | dy.lab
        f = {}
        z = set(dx.all().f.get("z", ())) | set(dy.all().f.get("z", ()))
        if z:
            f["z"] = frozenset(z)
        e = V(E0, frozenset(("float",)), E0, lab, f)
        if dx.rank == 0 or dy.rank == 0:
            return self.elementwise(
                lambda p, q: self.scalar_binop(ast.Mult(), p, q, st, node),
                [x, y], st, node)
        # contracted axes must agree
        ca = dx.axes[-1]
        cb = dy.axes[-2] if dy.rank > 1 else dy.axes[0]
        if is_r(ca) and is_r(cb):
            self.merge_spaces([ca[1], cb[1]], st, node)
        axes = list(dx.axes[:-1]) + (
            list(dy.axes[:-2]) + [dy.axes[-1]] if dy.rank > 1 else [])
        axes = [R(None) if a == "F" else a for a in axes]
        if not axes:
            return e
        return self.arr(st, node, axes, None, e)

    np_matmul = np_vdot = np_inner = np_dot

    def np_cross(self, args, node, st):
        lab = self.labs(args.all(), st)
        return prim("unk", lab=lab)

    np_outer = np_tensordot = np_einsum = np_kron = np_cross

    def x_numpy_linalg_norm(self, args, node, st):
        v = self.arrayish(args.get(0, "x", UNK), st, node)
        ax = args.get(2, "axis")
        k = self.c(ax, None)

        def fn(x):
            if x.bottom():
                return x
            return V(E0, frozenset(("float",)), E0, x.lab,
                     {"iv": (0, INF, False, False)})
        if k is LookupError or isinstance(k, tuple):
            return prim("unk", lab=self.labs([v], st))
        return self.reduce(v, k, fn, st, node)

    def x_numpy_linalg_inv(self, args, node, st):
        v = args.get(0, "a", UNK)
        if self.I.want_implicit:
            self.raise_alt("numpy.linalg.LinAlgError", st)
        d = self.desc(v, st, node)
        return self.arr(st, node, [R(None) if a == "F" else a
                                   for a in d.axes] or (R(None), R(None)),
                        None, prim("float", lab=self.labs([v], st)))

    def x_numpy_linalg_solve(self, args, node, st):
        if self.I.want_implicit:
            self.raise_alt("numpy.linalg.LinAlgError", st)
        d = self.desc(args.get(1, "b", UNK), st, node)
        lab = self.labs(args.all(), st)
        return self.arr(st, node, [R(None) if a == "F" else a
                                   for a in d.axes] or (R(None),), None,
                        prim("float", lab=lab))

    def x_numpy_linalg_det(self, args, node, st):
        return prim("float", lab=self.labs(args.all(), st))

    def np_delete(self, args, node, st):
        a = args.get(0, "arr", UNK)
        ix = args.get(1, "obj", UNK)
        ax = self.c(args.get(2, "axis"), None)
        d = self.desc(a, st, node)
        lab = d.lab | self.labs([ix], st, 2)
        if d.rank == 0:
            return prim("unk", lab=d.all().lab | lab)
        if ax is None:
            if d.rank > 1:
                return self.arr(st, node, (R(None),), None, d.all(), None,
                                None, None, lab)
            ax = 0
        if ax is LookupError or not -d.rank <= ax < d.rank:
            return prim("unk", lab=d.all().lab | lab)
        axes = list(d.axes)
        fields = d.fields
        if axes[ax] == "F" and fields is not None:
            k = self.c(ix)
            if isinstance(k, int) and -len(fields) <= k < len(fields):
                fields = list(fields)
                del fields[k]
            else:
                axes[ax] = R(None)
                return self.arr(st, node, axes, None, d.all(), None, None,
                                None, lab)
        else:
            o = ix.single()
            key = (o.buf.key if isinstance(o, Arr) else o.key
                   if isinstance(o, Loc) else self.I.site(node))
            sp = axes[ax][1]
            axes[ax] = R(("flt", sp, ("del", key)) if sp is not None
                         else None)
        return self.from_desc(Desc(axes, fields, d.rest, d.elem, lab), st,
                              node)

    def np_insert(self, args, node, st):
        return self.np_append(args, node, st)

    def np_unique(self, args, node, st):
        v = args.get(0, "ar", UNK)
        d = self.desc(v, st, node)
        e = d.all().withlab(d.lab)
        r = self.arr(st, node, (R(None),), None, e)
        extra = [k for k in ("return_index", "return_inverse",
                             "return_counts") if k in args.kw]
        if extra:
            return self.seq(st, node, "tuple", [r] + [
                self.arr(st, node, (R(None),), None, INT, None, None, k)
                for k in extra])
        return r

    def np_sort(self, args, node, st):
        v = args.get(0, "a", UNK)
        d = self.desc(v, st, node)
        axes = [R(("sorted", a[1])) if is_r(a) and a[1] is not None
                else R(None) for a in d.axes[:1]] + [
                    R(None) if a == "F" else a for a in d.axes[1:]]
        return self.arr(st, node, axes or (R(None),), None, d.all(), None,
                        None, None, d.lab)

    def np_hsplit(self, args, node, st):
        v = self.to_array(args.get(0, "ary", UNK), st, node)
        n = self.c(args.get(1, "indices_or_sections"))
        outs = []
        for a in self.alts(v):
            o = a.single()
            if not isinstance(o, Arr) or not isinstance(n, int):
                outs.append(self.seq(st, node, "list", (), UNK.withlab(
                    self.labs([a], st))))
                continue
            b = st.heap.get(o.buf)
            if len(o.axes) == 2 and o.axes[1] == "F" and b is not None \
                    and b.fields is not None:
                sel = list(o.sel) if o.sel is not None else list(
                    range(len(b.fields)))
                if n <= 0 or len(sel) % n:
                    self.raise_alt("ValueError", st)
                    continue
                w = len(sel) // n
                outs.append(self.seq(st, node, "list", [
                    obj(Arr(o.buf, o.axes, tuple(sel[i * w:(i + 1) * w])),
                        a.lab) for i in range(n)]))
            else:
                ax = list(o.axes)
                k = ax[1][1] if len(ax) > 1 and is_r(ax[1]) else None
                if isinstance(k, tuple) and k[0] == "fix" and n > 0:
                    if k[1] % n:
                        self.raise_alt("ValueError", st)
                        continue
                    ax[1] = R(ONE if k[1] == n else ("fix", k[1] // n))
                else:
                    if len(ax) > 1:
                        ax[1] = R(None)
                    self.I.may_raise(st)
                outs.append(self.seq(st, node, "list", [
                    obj(Arr(o.buf, tuple(ax), o.sel), a.lab)
                    for i in range(n)]))
        if not outs:
            from .interp import Bottom
            raise Bottom()
        return joinall(outs)

    def np_split(self, args, node, st):
        v = args.get(0, "ary", UNK)
        return self.seq(st, node, "list", (), self.to_array(v, st, node))

    np_array_split = np_vsplit = np_split

    def np_tile(self, args, node, st):
        d = self.desc(args.get(0, "A", UNK), st, node)
        return self.arr(st, node, (R(None),), None, d.all().withlab(d.lab))

    np_repeat = np_roll = np_diff = np_gradient = np_tile

    def np_copyto(self, args, node, st):
        self.store_out(args.get(0, "dst", UNK), args.get(1, "src", UNK),
                       st, node)
        return NONE

    def np_put(self, args, node, st):
        self.write_arg(args.get(0, "a", UNK), node, st, "np.put")
        return NONE

    np_place = np_putmask = np_fill_diagonal = np_put

    def np_genfromtxt(self, args, node, st):
        f = args.get(0, "fname", UNK)
        o = f.single()
        h = self.heap(o, st)
        if isinstance(h, File):
            q = self.file_seq(h.path, st)
            sh = st.heap.get(q) if q is not None else None
            pos = h.pos or 0
            self.I.emit("file-read", node, loc=o, st=st)
            if sh is not None:
                rows = [self.heap(x.single(), st) for x in sh.prefix[pos:]]
                rr = self.heap(sh.rest.single(), st) if (
                    sh.rest is not None) else None
                delim = self.c(args.get(3, "delimiter"), None)
                r = self.gen_matrix(rows, rr, delim, node, st)
                if r is not None:
                    return r
            return self.arr(st, node, (R(None), R(None)), None,
                            prim("float", lab=frozenset(("FILE",))))
        return self.arr(st, node, (R(None), R(None)), None, prim(
            "float", lab=self.labs([f], st) | {"FILE"}))

    np_loadtxt = np_genfromtxt

    def gen_matrix(self, rows, rr, delim, node, st):
        if not rows or any(not isinstance(r, Seq) for r in rows):
            return None
        allr = rows + ([rr] if isinstance(rr, Seq) else [])
        for r in allr:
            d = r.extra[1] if isinstance(r.extra, tuple) else None
            ok = d in (" ", "\t") if delim is None else d == delim
            if not ok:
                self.I.emit("csv-delim", node, wrote=d, read=delim, st=st)
                return self.arr(st, node, (R(None), R(None)), None, FLOAT)
        head = rows[0]
        body_rows = rows[1:] + ([rr] if isinstance(rr, Seq) else [])

        def num(v):
            r = []
            for a in self.alts(v):
                so = a.f.get("strof")
                k = None
                if a.is_const() and isinstance(a.const(), str):
                    try:
                        k = float(a.const())
                    except ValueError:
                        pass
                if so is not None:
                    r.append(so)
                elif k is not None:
                    r.append(const(k, a.lab))
                else:
                    r.append(FLOAT.withlab(a.lab))
            return joinall(r, FLOAT)
        if self.on() and all(r.rest is None for r in allr) and len(
                {len(r.prefix) for r in allr}) == 1 and not isinstance(
                    rr, Seq):
            return self.mk((len(rows), len(head.prefix)), [
                num(x) for r in rows for x in r.prefix], st, node, "gen")
        corner = num(head.prefix[0]) if head.prefix else FLOAT
        row0 = joinall([num(x) for x in head.prefix[1:]] + (
            [num(head.rest)] if head.rest is not None else []), FLOAT)
        col0 = joinall([num(r.prefix[0]) if r.prefix else num(
            r.rest or FLOAT) for r in body_rows], FLOAT)
        body = joinall(
            [num(x) for r in body_rows for x in r.prefix[1:]]
            + [num(r.rest) for r in body_rows if r.rest is not None],
            FLOAT)
        return self.arr(st, node, (R(None), R(None)), None,
                        joinall([corner, row0, col0, body]),
                        prov=("matrix", row0, col0, body, corner))

    def np_vectorize(self, args, node, st):
        return args.get(0, "pyfunc", UNK)

    def np_apply_along_axis(self, args, node, st):
        from .interp import Args
        f = args.get(0, "func1d", UNK)
        d = self.desc(args.get(2, "arr", UNK), st, node)
        r = self.I.call(f, Args([self.from_desc(
            Desc(d.axes[1:] or (R(None),), d.fields, d.rest, d.elem,
                 d.lab), st, node, "aa")]), node, st)
        return self.arr(st, node, (d.axes[0] if d.rank else R(None),),
                        None, joinall([r]))

    def np_isin(self, args, node, st):
        v = self.arrayish(args.get(0, "element", UNK), st, node)
        lab = self.labs([args.get(1, "test_elements", UNK)], st)
        return self.elementwise(
            lambda x: prim("bool", lab=x.lab | lab), [v], st, node,
            dtype="bool")

    np_in1d = np_isin

    def np_isreal(self, args, node, st):
        return self.np_isin(args, node, st)

    def np_finfo(self, args, node, st):
        return obj(self.new(st, node, Opaque(None, FInfo(), "finfo")))

    np_iinfo = np_finfo

    def np_fromiter(self, args, node, st):
        e, pre, sp = self.elements(args.get(0, "iter", UNK), st, node)
        return self.arr(st, node, (R(sp),), None, e)

    def np_ndarray(self, args, node, st):
        return UNK

    def np_searchsorted(self, args, node, st):
        lab = self.labs(args.all(), st)
        d = self.desc(args.get(0, "a", UNK), st, node)
        f = {"iv": (0, INF, False, False)}
        if d.rank == 1 and is_r(d.axes[0]) and d.axes[0][1] is not None:
            f["ix"] = (d.axes[0][1], self.I.site(node))
        v = self.arrayish(args.get(1, "v", UNK), st, node)
        return self.elementwise(
            lambda x: V(E0, frozenset(("int",)), E0, lab, f), [v], st,
            node)

    np_digitize = np_searchsorted

    def np_ix_(self, args, node, st):
        return UNK

    def np_unwrap(self, args, node, st):
        return prim("unk", lab=self.labs(args.all(), st))

    def np_float_power(self, args, node, st):
        return self.np_elem2("power", args, node, st)

    def np_bool_(self, args, node, st):
        return self.b_bool(args, node, st)

    # ------------------------------------------------------------ library
    def x_copy_copy(self, args, node, st):
        return self.copy_value(args.get(0, "x", UNK), st, node, 0)

    def x_copy_deepcopy(self, args, node, st):
        return self.copy_value(args.get(0, "x", UNK), st, node, 6)

    def copy_value(self, v, st, node, depth, seen=None, path=()):
        """copy of a value; depth bounds how deep the copying goes"""
        seen = {} if seen is None else seen
        objs = set()
        extra = []
        for o in v.objs:
            if o in seen:
                objs.add(seen[o])
                continue
            if isinstance(o, Arr):
                d = self.desc_arr(o, st, E0)
                c = self.from_desc(d, st, node, ("cp",) + path)
                if c.objs:
                    objs |= c.objs
                else:
                    extra.append(c)
                continue
            h = self.heap(o, st)
            if isinstance(h, (Inst, Seq, Dict)):
                n = h.clone()
                n.multi = False
                loc = self.I.alloc(st, node, n, ("cp",) + path)
                seen[o] = loc
                objs.add(loc)
                if depth > 0:
                    def rc(x, p):
                        return self.copy_value(x, st, node, depth - 1,
                                               seen, path + (p,))
                    if isinstance(h, Inst):
                        fs = {k: rc(x, k) for k, x in h.fields.items()}
                        st.edit(loc).fields = fs
                    elif isinstance(h, Seq):
                        pre = tuple(rc(x, i) for i, x in enumerate(
                            h.prefix))
                        r = rc(h.rest, "r") if h.rest is not None else None
                        e = st.edit(loc)
                        e.prefix, e.rest = pre, r
                    else:
                        its = {k: rc(x, str(k)) for k, x in
                               h.items.items()}
                        rv = rc(h.rv, "rv") if h.rv is not None else None
                        e = st.edit(loc)
                        e.items, e.rv = its, rv
            else:
                objs.add(o)
        r = V(frozenset(objs), v.prims, v.consts, v.lab, v.f)
        return joinall([r] + extra)

    def x_warnings_warn(self, args, node, st):
        self.I.emit("warn", node, st=st)
        return NONE

    x_warnings_simplefilter = x_warnings_filterwarnings = x_warnings_warn

    def x_ast_literal_eval(self, args, node, st):
        v = args.get(0, "node_or_string", UNK)
        from .interp import Bottom
        outs = []
        for a in self.alts(v):
            o = a.single()
            if o is not None:
                self.raise_alt("ValueError", st)
                continue
            for c in a.consts:
                if not isinstance(c.v, str):
                    self.raise_alt("ValueError", st)
                    continue
                try:
                    x = ast.literal_eval(c.v)
                except (ValueError, SyntaxError) as e:
                    self.raise_alt(type(e).__name__, st)
                    continue
                except Exception:
                    self.raise_alt("ValueError", st)
                    continue
                if isinstance(x, (int, float, str, bool)) or x is None:
                    outs.append(const(x, a.lab))
                else:
                    outs.append(prim("unk", lab=a.lab))
            for p in a.prims:
                if p == "str":
                    self.I.may_raise(st)
                    so = a.f.get("strof")
                    if so is not None:
                        if so.prims & {"datetime", "date", "time"}:
                            self.raise_alt("SyntaxError", st)
                            self.raise_alt("ValueError", st)
                            continue
                        outs.append(so.withlab(a.lab))
                    else:
                        outs.append(prim("unk", lab=a.lab))
                elif p == "unk":
                    self.I.may_raise(st)
                    outs.append(prim("unk", lab=a.lab))
                else:
                    self.raise_alt("ValueError", st)
        if not outs:
            raise Bottom()
        return joinall(outs)

    def x_csv_writer(self, args, node, st):
        w = Opaque(None, CsvWriter(), "csv.writer")
        w.fields["file"] = args.get(0, "csvfile", UNK)
        w.fields["delim"] = args.get(None, "delimiter") if (
            "delimiter" in args.kw) else const(",")
        return obj(self.new(st, node, w))

    def x_csv_reader(self, args, node, st):
        v = args.get(0, "csvfile", UNK)
        delim = args.kw.get("delimiter", const(","))
        o = v.single()
        h = self.heap(o, st)
        if isinstance(h, File):
            self.I.emit("file-read", node, loc=o, st=st)
            q = self.file_seq(h.path, st)
            sh = st.heap.get(q) if q is not None else None
            lab = frozenset(("FILE",))
            if sh is None:
                row = self.seq(st, node, "list", (), STR.withlab(
                    lab | h.path.lab), extra="row")
                return self.seq(st, node, "iter", (), row)
            if h.pos is None:
                self.I.emit("file-pos-unknown", node, st=st)
            pre = [self.reread(r, delim, node, st, i)
                   for i, r in enumerate(sh.prefix[h.pos or 0:])]
            rest = self.reread(sh.rest, delim, node, st, "r") if (
                sh.rest is not None) else None
            rsp = self.rest_space(sh)
            r = self.seq(st, node, "iter", pre, rest, None if pre else rsp,
                         extra="csvr")
            st.edit(r.single()).extra = ("csvr", o, rsp)
            return r
        e, pre, sp = self.elements(v, st, node)
        return self.seq(st, node, "iter", (), self.seq(
            st, node, "list", (), STR.withlab(self.labs([v], st)),
            extra="row"))

    def reread(self, rec, delim, node, st, i):
        """a written record as the csv reader yields it"""
        outs = []
        for j, a in enumerate(self.alts(rec)):
            h = self.heap(a.single(), st)
            if isinstance(h, Seq) and h.typ == "row":
                d = self.c(delim)
                if h.extra[:2] != ("delim", d):
                    one = len(h.prefix) == 1 and h.rest is None
                    if not one:
                        self.I.emit("csv-delim", node, wrote=h.extra[1],
                                    read=d, st=st)
                        outs.append(self.seq(
                            st, node, "list", [STR], extra=("rr", i, j)))
                        continue
                lit = frozenset(("LIT",))
                outs.append(self.seq(
                    st, node, "list",
                    [x.withlab(lit) if x.is_const() else x
                     for x in h.prefix],
                    h.rest.withlab(lit) if h.rest is not None and
                    h.rest.is_const() else h.rest,
                    h.space, extra=("rr", i, j)))
                if len(h.extra) > 2 and h.extra[2] is not None:
                    st.edit(outs[-1].single()).extra = (
                        "restspace", h.extra[2])
            else:
                outs.append(self.seq(st, node, "list", (), STR.withlab(
                    a.lab), extra=("rr", i, j)))
        return joinall(outs, UNK)

    # json
    def x_json_dumps(self, args, node, st):
        o = args.get(0, "obj", UNK)
        cls = args.kw.get("cls")
        v = self.jsonify(o, cls, st, node, 0, ())
        return V(E0, frozenset(("str",)), E0, self.labs([v], st),
                 {"strof": v})

    def x_json_dump(self, args, node, st):
        o = args.get(0, "obj", UNK)
        v = self.jsonify(o, args.kw.get("cls"), st, node, 0, ())
        s = V(E0, frozenset(("str",)), E0, self.labs([v], st),
              {"strof": v})
        fo = args.get(1, "fp", UNK).single()
        h = self.heap(fo, st)
        if isinstance(h, File):
            self.I.emit("file-write", node, loc=fo, st=st)
            self.file_append(h, s, st, node)
        return NONE

    def jsonify(self, v, cls, st, node, depth, path):
        from .interp import Args
        if depth > 6:
            return prim("unk", lab=self.labs([v], st))
        outs = []
        for i, a in enumerate(self.alts(v)):
            o = a.single()
            if o is None:
                bad = a.prims & {"datetime", "date", "time", "timedelta"}
                good = V(E0, a.prims - bad, a.consts, a.lab, a.f)
                if not good.bottom():
                    outs.append(good)
                if not bad:
                    continue
                a = V(E0, frozenset(bad), E0, a.lab, a.f)
            h = self.heap(o, st)
            p = path + (i,)
            if isinstance(h, Seq) and h.typ in ("list", "tuple"):
                pre = [self.jsonify(x, cls, st, node, depth + 1, p + (k,))
                       for k, x in enumerate(h.prefix)]
                r = self.jsonify(h.rest, cls, st, node, depth + 1,
                                 p + ("r",)) if h.rest is not None and \
                    not h.rest.bottom() else h.rest
                outs.append(self.seq(st, node, "list", pre, r, h.space,
                                     extra=("js",) + p))
            elif isinstance(h, Dict):
                d = Dict()
                for k, x in h.items.items():
                    d.items[Const(k.v if isinstance(k.v, str)
                                  else str(k.v))] = self.jsonify(
                        x, cls, st, node, depth + 1, p + (str(k),))
                d.maybe = h.maybe
                if h.rk is not None:
                    d.rk = STR
                    d.rv = self.jsonify(h.rv, cls, st, node, depth + 1,
                                        p + ("rv",))
                outs.append(obj(self.new(st, node, d, ("js",) + p)))
            else:
                # handed to the encoder's default()
                r = None
                if cls is not None:
                    c = cls.single()
                    if isinstance(c, Loc) and isinstance(
                        st.heap.get(c), Class
                    ):
                        m, owner = self.I.class_attr(c, "default", st)
                        if m is not None:
                            il = self.I.alloc(st, node, Inst(c, {}),
                                              ("enc", p))
                            r = self.I.call(
                                self.I.bind(m, il, st, node, owner),
                                Args([a]), node, st)
                if r is None:
                    self.raise_alt("TypeError", st)
                    continue
                if r.single() is not None and r.single() == o:
                    continue
                outs.append(self.jsonify(r, cls, st, node, depth + 1,
                                         p + ("d",)))
        if not outs:
            from .interp import Bottom
            raise Bottom()
        return joinall(outs)

    def x_json_loads(self, args, node, st):
        v = args.get(0, "s", UNK)
        so = v.f.get("strof")
        self.I.may_raise(st)
        if so is not None:
            return self.copy_value(so, st, node, 8)
        return prim("unk", lab=self.labs([v], st))

    def x_json_load(self, args, node, st):
        from .interp import Args
        fo = args.get(0, "fp", UNK)
        s = self.call_method(fo, "read", Args(), node, st)
        return self.x_json_loads(Args([s]), node, st)

    def x_json_JSONEncoder_default(self, args, node, st):
        self.raise_alt("TypeError", st)
        from .interp import Bottom
        raise Bottom()

    # datetime
    def _dt(self, kind, args, lab=E0, **f):
        return V(E0, frozenset((kind,)), E0, lab, f)

    def _dt_const(self, cls, args, st):
        vs = args.all()
        if args.rest is not None or args.kwrest is not None or not all(
                v.is_const() and poly.num(v.const()) for v in vs):
            return None
        try:
            return const(cls(*(v.const() for v in args.pos), **{
                k: v.const() for k, v in args.kw.items()}),
                self.labs(vs, st))
        except (TypeError, ValueError, OverflowError):
            return None

    def x_datetime_datetime(self, args, node, st):
        return self._dt_const(datetime.datetime, args, st) or self._dt(
            "datetime", args, self.labs(args.all(), st))

    def x_datetime_date(self, args, node, st):
        return self._dt_const(datetime.date, args, st) or self._dt(
            "date", args, self.labs(args.all(), st))

    def x_datetime_time(self, args, node, st):
        return self._dt_const(datetime.time, args, st) or self._dt(
            "time", args, self.labs(args.all(), st))

    def x_datetime_timedelta(self, args, node, st):
        return self._dt_const(datetime.timedelta, args, st) or self._dt(
            "timedelta", args, self.labs(args.all(), st))

    def x_datetime_datetime_now(self, args, node, st):
        return self._dt("datetime", args, frozenset(("clock",)))

    x_datetime_datetime_utcnow = x_datetime_datetime_today = \
        x_datetime_datetime_now

    def dt_fold(self, fn, args, st):
        """the result of a date function for constant arguments"""
        vs = args.all()
        if args.rest is not None or args.kwrest is not None or not vs or \
                not all(v.is_const() and not v.f for v in vs):
            return None
        try:
            r = fn(*(v.const() for v in args.pos),
                   **{k: v.const() for k, v in args.kw.items()})
        except ValueError:
            from .interp import Bottom
            self.raise_alt("ValueError", st)
            raise Bottom()
        except (TypeError, OverflowError, AttributeError):
            return None
        return const(r, self.labs(vs, st))

    def x_datetime_datetime_combine(self, args, node, st):
        r = self.dt_fold(datetime.datetime.combine, args, st)
        if r is not None:
            return r
        ks = [self.kinds(a) for a in args.pos[:2]]
        if len(ks) == 2 and not (ks[0] & {"unk", "date", "datetime"}) or \
                len(ks) == 2 and not (ks[1] & {"unk", "time"}):
            self.raise_alt("TypeError", st)
        return self._dt("datetime", args, self.labs(args.all(), st))

    def x_datetime_datetime_fromisoformat(self, args, node, st):
        r = self.dt_fold(datetime.datetime.fromisoformat, args, st)
        if r is not None:
            return r
        v = args.get(0, None, UNK)
        so = v.f.get("strof")
        k = v.f.get("fmt")
        if so is None or k is None:
            self.I.may_raise(st)
            if self.I.want_implicit or k is None:
                self.raise_alt("ValueError", st)
        elif not k.startswith("ISO"):
            self.raise_alt("ValueError", st)
            from .interp import Bottom
            raise Bottom()
        elif k != "ISO":
            self.I.emit("fmt-lossy", node, lost=(k[4:],), fmt=k, st=st)
        return so if so is not None else self._dt(
            "datetime", args, self.labs([v], st))

    def x_datetime_datetime_strftime(self, args, node, st):
        return self.strftime(args.get(0, None, UNK),
                             args.get(1, None, UNK), st)

    def strftime(self, v, fmt, st):
        f = {"strof": v}
        k = self.c(fmt)
        if isinstance(k, str):
            f["fmt"] = k
        return V(E0, frozenset(("str",)), E0, self.labs([v], st), f)

    def x_datetime_datetime_strptime(self, args, node, st):
        r = self.dt_fold(datetime.datetime.strptime, args, st)
        if r is not None:
            return r
        v = args.get(0, None, UNK)
        fmt = self.c(args.get(1, None, UNK))
        self.I.may_raise(st)
        so = v.f.get("strof")
        f = {}
        if so is not None:
            f = dict(so.f)
            w = v.f.get("fmt")
            if w is not None and w.startswith("ISO"):
                self.raise_alt("ValueError", st)
                from .interp import Bottom
                raise Bottom()
            if isinstance(fmt, str) and w is not None:
                if _dtfields(w) != _dtfields(fmt):
                    self.I.emit("fmt-mismatch", node, wrote=w, read=fmt,
                                st=st)
                    f = {}
                lost = _dtlost(w)
                if lost:
                    self.I.emit("fmt-lossy", node, lost=lost, fmt=w, st=st)
        return V(E0, frozenset(("datetime",)), E0,
                 (so.lab if so is not None else E0) | v.lab, f)

    # itertools / bisect / inspect / functools
    def x_itertools_chain(self, args, node, st):
        pre, rest, first = [], None, True
        sp = None
        vs = list(args.pos)
        n = 0
        for v in vs:
            p, r, s = self.merge_iter(self.iter_alts(v, st, node))
            n += 1
            sp = s if n == 1 else None
            if rest is None:
                pre += p
            else:
                rest = joinall([rest] + p)
            if r is not None:
                rest = r if rest is None else join(rest, r)
        if args.rest is not None:
            # chain(*lists)
            try:
                e, _, _ = self.elements(args.rest, st, node)
            except Exception as ex:
                if type(ex).__name__ != "Bottom":
                    raise
                e = BOT
            rest = e if rest is None else join(rest, e)
        return self.seq(st, node, "iter", pre, rest, sp)

    def x_itertools_chain_from_iterable(self, args, node, st):
        from .interp import Args
        p, r, s = self.merge_iter(
            self.iter_alts(args.get(0, None, UNK), st, node))
        return self.x_itertools_chain(Args(p, rest=r), node, st)

    def x_itertools_combinations(self, args, node, st):
        e, pre, sp = self.elements(args.get(0, None, UNK), st, node)
        k = self.c(args.get(1, "r"))
        n = k if isinstance(k, int) and 0 < k < 6 else 2
        t = self.seq(st, node, "tuple", [e] * n, extra="comb")
        return self.seq(st, node, "iter", (), t)

    x_itertools_permutations = x_itertools_combinations

    def x_itertools_product(self, args, node, st):
        rep = self.c(args.kw.get("repeat"), 1)
        es = [self.elements(v, st, node)[0] for v in args.pos]
        if isinstance(rep, int) and rep > 1:
            es = es * rep
        t = self.seq(st, node, "tuple", es, extra="prod") if (
            args.rest is None and rep is not LookupError) else \
            self.seq(st, node, "tuple", (), joinall(es + [
                self.elements(args.rest, st, node)[0]
                if args.rest is not None else BOT]), extra="prod")
        return self.seq(st, node, "iter", (), t)

    def x_itertools_islice(self, args, node, st):
        e, pre, sp = self.elements(args.get(0, None, UNK), st, node)
        lim = [self.c(v) if v is not None else None for v in args.pos[1:]]
        o = args.pos[0].single() if args.pos else None
        hp = st.heap.get(o) if isinstance(o, Loc) else None
        if lim and len(lim) == len(args.pos) - 1 and all(
                x is None or isinstance(x, int) and x >= 0 for x in lim) and \
                all(v.is_const() for v in args.pos[1:]):
            cut = slice(*lim)
            pre, rest, sp2 = self.merge_iter(
                self.iter_alts(args.pos[0], st, node))
            if sp2 == FOREVER and rest is not None and cut.stop is not None:
                n = len(range(cut.stop)[cut])
                return self.seq(st, node, "iter", [rest] * n, None)
            if rest is None and not (isinstance(hp, Seq)
                                     and hp.typ == "iter"):
                return self.seq(st, node, "iter", list(pre)[cut], None)
        return self.seq(st, node, "iter", (), e,
                        ("slice", sp, "isl") if sp is not None else None)

    def x_itertools_count(self, args, node, st):
        return self.seq(st, node, "iter", (), INT)

    def x_itertools_repeat(self, args, node, st):
        v = args.get(0, "object", UNK)
        n = args.get(1, "times")
        if n is None:
            return self.seq(st, node, "iter", (), v, FOREVER)
        k = self.c(n)
        if isinstance(k, int) and n.is_const() and k <= 64:
            return self.seq(st, node, "iter", [v] * max(0, k), None)
        return self.seq(st, node, "iter", (), v)

    def x_itertools_accumulate(self, args, node, st):
        e, pre, sp = self.elements(args.get(0, None, UNK), st, node)
        return self.seq(st, node, "iter", (), join(e, V(
            E0, e.prims or frozenset(("unk",)), E0, e.lab, {})), sp)

    def x_itertools_zip_longest(self, args, node, st):
        es = [join(self.elements(v, st, node)[0],
                   args.kw.get("fillvalue", NONE)) for v in args.pos]
        return self.seq(st, node, "iter", (), self.seq(
            st, node, "tuple", es, extra="zl"))

    def x_functools_reduce(self, args, node, st):
        from .interp import Args
        f = args.get(0, None, UNK)
        e, pre, sp = self.elements(args.get(1, None, UNK), st, node)
        acc = args.get(2, None)
        acc = e if acc is None else acc
        if e.bottom():
            return acc
        for _ in range(2):
            acc = join(acc, self.I.call(f, Args([acc, e]), node, st))
        return acc

    def x_functools_partial(self, args, node, st):
        p = Opaque(None, Partial(), "partial")
        p.fields["func"] = args.get(0, None, UNK)
        p.fields["args"] = self.seq(st, node, "tuple", args.pos[1:],
                                    extra="pa")
        for k, v in args.kw.items():
            p.fields["kw:" + k] = v
        return obj(self.new(st, node, p))

    def x_contextlib_suppress(self, args, node, st):
        p = Opaque(None, Plain(), "suppress")
        p.fields["types"] = self.seq(st, node, "tuple", args.pos,
                                     extra="su")
        return obj(self.new(st, node, p))

    def x_bisect_bisect_left(self, args, node, st, left=True):
        v = args.get(0, "a", UNK)
        lab = self.labs(args.all(), st, 2)
        f = {"iv": (0, INF, False, True)}
        d = self.desc(v, st, node)
        if d.rank == 1 and is_r(d.axes[0]) and d.axes[0][1] is not None:
            f["ix"] = (d.axes[0][1], self.I.site(node))
        self.I.emit("bisect", node, seq=v, st=st)
        r = self.cells(v, st) if self.on() else None
        x = args.get(1, "x", UNK)
        if r is not None and len(r[0]) == 1 and len(args.pos) == 2 and \
                not args.kw and x.is_const() and all(
                    c.is_const() for c in r[1]):
            f = bisect.bisect_left if left else bisect.bisect_right
            try:
                return const(f([c.const() for c in r[1]], x.const()), x.lab)
            except TypeError:
                pass
        return V(E0, frozenset(("int",)), E0, lab, f)

    def x_bisect_bisect_right(self, args, node, st):
        return self.x_bisect_bisect_left(args, node, st, left=False)

    x_bisect_bisect = x_bisect_bisect_right

    def x_inspect_getmembers(self, args, node, st):
        v = args.get(0, None, UNK)
        o = v.single()
        h = self.heap(o, st)
        pred = args.get(1, None)
        from .domain import Module
        out = []
        if isinstance(h, Module):
            fr = st.heap[h.frame]
            want = pred.single() if pred is not None else None
            for k in sorted(fr.vars):
                x = fr.vars[k]
                if isinstance(want, Ext) and want.path == \
                        "inspect.isfunction":
                    fh = self.heap(x.single(), st)
                    if not isinstance(fh, Func):
                        continue
                out.append(self.seq(st, node, "tuple", [const(k), x],
                                    extra=("gm", k)))
            return self.seq(st, node, "list", out)
        return self.seq(st, node, "list", (), self.seq(
            st, node, "tuple", [STR, UNK], extra="gm"))

    def x_decimal_Decimal(self, args, node, st):
        return self.to_number(args.get(0, None, UNK), node, st, "float")

    # scipy
    def x_scipy_integrate_solve_ivp(self, args, node, st):
        from .interp import Args
        f = args.get(0, "fun", UNK)
        span = args.get(1, "t_span", UNK)
        y0 = args.get(2, "y0", UNK)
        a = [prim("float", lab=self.labs([span], st)),
             self.to_array(y0, st, node, copy=True)]
        extra = args.kw.get("args")
        if extra is not None:
            h = self.heap(extra.single(), st)
            if isinstance(h, Seq):
                a += list(h.prefix)
        r = self.call_back(f, node, st, Args(a))
        return prim("unk", lab=self.labs(args.all() + [r], st))

    def x_scipy_integrate_trapezoid(self, args, node, st):
        y, x = args.get(0, "y", UNK), args.get(1, "x")
        if x is not None:
            dy, dx = self.desc(y, st, node), self.desc(x, st, node)
            if dy.rank == 1 and dx.rank == 1 and is_r(dy.axes[0]) and \
                    is_r(dx.axes[0]):
                self.merge_spaces([dy.axes[0][1], dx.axes[0][1]], st, node)
        return prim("float", lab=self.labs(args.all(), st))

    def x_scipy_optimize_curve_fit(self, args, node, st):
        from .interp import Args
        f = args.get(0, "f", UNK)
        x, y = args.get(1, "xdata", UNK), args.get(2, "ydata", UNK)
        self.I.emit("fit", node, x=x, y=y, st=st)
        if self.I.want_implicit:
            self.raise_alt("RuntimeError", st)
        d = self.desc(x, st, node)
        self.call_back(f, node, st, Args([x], rest=FLOAT))
        lab = self.labs(args.all(), st)
        return self.seq(st, node, "tuple", [
            self.arr(st, node, (R(("fit", self.I.site(node))),), None,
                     prim("float", lab=lab), None, None, "popt"),
            self.arr(st, node, (R(None), R(None)), None,
                     prim("float", lab=lab), None, None, "pcov")])

    def _odr_part(self, name, args, node, st):
        p = Opaque(None, OdrObj(), name)
        for i, v in enumerate(args.pos):
            p.fields[str(i)] = v
        for k, v in args.kw.items():
            p.fields[k] = v
        return obj(self.new(st, node, p))

    def x_scipy_odr_odrpack_Model(self, args, node, st):
        return self._odr_part("Model", args, node, st)

    def x_scipy_odr_odrpack_Data(self, args, node, st):
        x, y = args.get(0, "x", UNK), args.get(1, "y", UNK)
        self.I.emit("fit", node, x=x, y=y, st=st)
        return self._odr_part("Data", args, node, st)

    def x_scipy_odr_odrpack_ODR(self, args, node, st):
        return self._odr_part("ODR", args, node, st)

    x_scipy_odr_Model = x_scipy_odr_odrpack_Model
    x_scipy_odr_Data = x_scipy_odr_odrpack_Data
    x_scipy_odr_ODR = x_scipy_odr_odrpack_ODR

    def x_scipy_spatial_ConvexHull(self, args, node, st):
        v = args.get(0, "points", UNK)
        if self.I.want_implicit:
            self.raise_alt("scipy.spatial.qhull.QhullError", st)
        d = self.desc(v, st, node)
        p = Opaque(None, Hull(), "ConvexHull")
        sp = d.axes[0][1] if d.rank and is_r(d.axes[0]) else None
        f = {}
        if sp is not None:
            f["ix"] = (sp, "hull")
        lab = self.labs([v], st)
        p.fields["vertices"] = self.arr(
            st, node, (R(("take", sp, "hull") if sp is not None else None),
                       ), None, V(E0, frozenset(("int",)), E0, lab, f),
            None, None, "hv")
        p.fields["points"] = v
        p.fields["equations"] = self.arr(
            st, node, (R(None), R(None)), None, prim("float", lab=lab),
            None, None, "he")
        p.fields["simplices"] = self.arr(
            st, node, (R(None), R(None)), None, prim("int", lab=lab),
            None, None, "hs")
        return obj(self.new(st, node, p))

    # pandas / pynmea2 / netCDF4
    def x_pandas_read_csv(self, args, node, st):
        self.I.emit("open", node, loc=None,
                    path=args.get(0, None, UNK), mode="r", st=st,
                    managed=True)
        self.I.may_raise(st)
        return prim("unk", lab=frozenset(("FILE",)) | self.labs(
            args.all(), st))

    def x_netCDF4_Dataset(self, args, node, st):
        self.I.may_raise(st)
        return prim("unk", lab=frozenset(("FILE",)))

    def x_pynmea2_parse(self, args, node, st):
        if self.I.want_implicit:
            self.raise_alt("pynmea2.ParseError", st)
        return prim("unk", lab=self.labs(args.all(), st) | {"FILE"})

    # =============================================================== attrs
    def prim_attr(self, v, name, st, node):
        ks = self.kinds(v)
        if ks & {"datetime", "date", "time", "timedelta"}:
            if v.is_const():
                x = getattr(v.const(), name, None)
                if isinstance(x, int):
                    return const(x, v.lab)
            if name in ("year", "month", "day", "hour", "minute", "second",
                        "microsecond", "days", "seconds", "microseconds"):
                return prim("int", lab=v.lab)
            if name in ("max", "min"):
                return v
        if ks and ks <= {"none"}:
            self.I.emit("attr-on-none", node, name=name, st=st)
            self.raise_alt("AttributeError", st)
            return BOT
        if ks <= {"int", "float", "bool"} and name in (
            "shape",
        ):
            # numpy scalars have one, python numbers do not
            self.I.may_raise(st)
            return self.seq(st, node, "tuple", ())
        if ks <= {"int", "float", "bool"} and name in ("ndim", "size"):
            self.I.may_raise(st)
            return const(0 if name == "ndim" else 1)
        if ks <= {"int", "float", "bool"} and name == "T":
            return v
        if ks <= {"int", "float", "bool"} and name == "dtype":
            return obj(Ext("dtype.num"))
        if ks <= {"int", "float"} and name in ("real", "imag"):
            return v
        return V(frozenset((ExtBound(v, name),)))

    def heap_attr(self, o, h, name, st, node):
        if isinstance(h, File):
            if name == "name":
                return h.path
            if name == "closed":
                return BOOL
        if isinstance(h, (Seq, Dict)):
            t = {"list": [], "tuple": (), "set": set(), "iter": iter(()),
                 "row": []}.get(getattr(h, "typ", None),
                                {} if isinstance(h, Dict) else None)
            if t is not None and not hasattr(t, name) and name not in (
                    "send", "close", "throw"):
                self.I.emit("no-attr", node, loc=o, name=name, cls=None,
                            st=st)
                self.raise_alt("AttributeError", st)
                return None
            if isinstance(h, Seq) and h.typ == "slice":
                k = {"start": 0, "stop": 1, "step": 2}.get(name)
                if k is not None:
                    return h.prefix[k]
        return V(frozenset((ExtBound(obj(o), name),)))

    # ============================================================= methods
    def call_method(self, recv, name, args, node, st):
        outs = []
        al = self.alts(recv)
        states = []
        for a in al:
            s = st if len(al) == 1 else st.clone()
            try:
                r = self.method1(a, name, args, node, s)
            except Exception as e:
                if type(e).__name__ != "Bottom":
                    raise
                continue
            if r is None:
                continue
            outs.append(r)
            states.append(s)
        if not outs:
            from .interp import Bottom
            raise Bottom()
        if len(states) == 1:
            if states[0] is not st:
                st.assign(states[0])
        else:
            j = None
            for s in states:
                j = join_states(j, s)
            st.assign(j)
        return joinall(outs)

    def method1(self, a, name, args, node, st):
        o = a.single()
        if o is None:
            return self.prim_method(a, name, args, node, st)
        if isinstance(o, Arr):
            return self.arr_method(o, a, name, args, node, st)
        h = self.heap(o, st)
        if isinstance(h, Seq):
            if h.typ == "set":
                return self.set_method(o, h, a, name, args, node, st)
            return self.list_method(o, h, a, name, args, node, st)
        if isinstance(h, Dict):
            return self.dict_method(o, h, a, name, args, node, st)
        if isinstance(h, File):
            return self.file_method(o, h, a, name, args, node, st)
        if isinstance(o, Super):
            if name == "__init__":
                for x in args.all():
                    self.call_back(x, node, st)
                return NONE
            if name == "__setattr__":
                n = args.get(0, None, UNK)
                if n.is_const():
                    i = st.edit(o.self_)
                    self.I.emit("write", node, loc=o.self_,
                                what="." + str(n.const()),
                                field=n.const(),
                                value=args.get(1, None, UNK), st=st,
                                old=i.fields.get(n.const()))
                    i.fields[n.const()] = args.get(1, None, UNK)
                return NONE
            if name in ("default",):
                self.raise_alt("TypeError", st)
                return None
            if name in ("__eq__", "__ne__"):
                return BOOL
            if name in ("__init_subclass__", "__enter__", "__exit__"):
                return NONE
            if name == "__new__":
                c = args.get(0, None)
                cl = c.single() if c is not None else None
                if isinstance(cl, Loc):
                    return obj(self.I.alloc(st, node, Inst(cl, {}), "new"))
            if name in ("__str__", "__repr__"):
                return STR
            self.I.may_raise(st)
            return prim("unk", lab=self.labs(args.all(), st)
                        | self.I._obj_labels(o.self_, st, 3, set()))
        if isinstance(h, Inst):
            if isinstance(h.tag, tuple) and h.tag[:1] == ("nt",):
                if name == "_asdict":
                    d = Dict({Const(k): h.fields[k] for k in h.tag[1]})
                    return obj(self.new(st, node, d))
                if name == "_replace":
                    n = h.clone()
                    for k, v in args.kw.items():
                        n.fields[k] = v
                    return obj(self.new(st, node, n))
            if name in ("__eq__", "__ne__"):
                return BOOL
            if name in ("__str__", "__repr__"):
                return STR
            if name == "__hash__":
                return INT
            self.I.emit("ext-method", node, recv=a, name=name, args=args,
                        st=st)
            self.I.may_raise(st)
            return prim("unk", lab=self.labs(args.all(), st))
        if isinstance(h, Class):
            if name == "__subclasses__":
                subs = sorted(
                    (x for x in st.heap if isinstance(x, Loc) and isinstance(
                        st.heap[x], Class) and o in st.heap[x].bases),
                    key=repr)
                return self.seq(st, node, "list", [obj(x) for x in subs])
            if name == "__new__":
                c = args.get(0, None)
                cl = c.single() if c is not None else o
                if isinstance(cl, Loc):
                    return obj(self.I.alloc(st, node, Inst(cl, {}), "new"))
            return prim("unk", lab=self.labs(args.all(), st))
        if isinstance(h, Opaque):
            fn = getattr(h.contract, "method", None)
            if fn is not None:
                return fn(self.I, o, h, name, args, st, node)
            return prim("unk", lab=self.labs(args.all() + [a], st))
        self.I.may_raise(st)
        return prim("unk", lab=self.labs(args.all() + [a], st))

    # ---- strings, numbers, dates, unknown values
    def prim_method(self, a, name, args, node, st):
        ks = self.kinds(a)
        if a.is_const() and not args.all() and isinstance(a.const(), (
                datetime.date, datetime.time, datetime.timedelta)) and \
                name in ("total_seconds", "timestamp", "isoformat", "date",
                         "time", "toordinal", "weekday") and hasattr(
                             a.const(), name) and args.rest is None:
            if name != "timestamp":  # depends on the time zone
                return const(getattr(a.const(), name)(), a.lab)
        if a.is_const() and isinstance(a.const(), (
                datetime.date, datetime.time)) and name in (
                    "strftime", "replace", "isoformat"):
            r = self.dt_fold(getattr(a.const(), name), args, st)
            if r is not None:
                return V(r.objs, r.prims, r.consts, r.lab | a.lab, r.f)
        if ks & {"datetime", "date", "time"} and "unk" not in ks:
            if name == "strftime":
                return self.strftime(a, args.get(0, None, UNK), st)
            if name == "isoformat":
                r = self.cell(a, st)
                ts = self.c(args.get(1, "timespec", const("auto")))
                if r.f.get("strof") is None or ts is None:
                    return r
                return V(r.objs, r.prims, r.consts, r.lab, dict(
                    r.f, fmt="ISO" if ts in ("auto", "microseconds")
                    else f"ISO {ts}"))
            if name in ("__str__", "ctime"):
                return self.cell(a, st)
            if name in ("timestamp", "total_seconds"):
                return prim("float", lab=a.lab)
            if name == "date":
                return prim("date", lab=a.lab)
            if name == "time":
                return prim("time", lab=a.lab)
            if name in ("replace", "astimezone"):
                f = dict(a.f)
                f.pop("iv", None)
                return V(E0, a.prims, E0, a.lab | self.labs(
                    args.all(), st), f)
            if name in ("weekday", "toordinal"):
                return prim("int", lab=a.lab)
            return prim("unk", lab=a.lab)
        if ks & {"timedelta"} and name == "total_seconds":
            return prim("float", lab=a.lab)
        if "str" in ks and "unk" not in ks:
            return self.str_method(a, name, args, node, st)
        if ks <= {"none"}:
            self.raise_alt("AttributeError", st)
            return None
        if ks <= {"int", "float", "bool"}:
            if name in ("item", "copy", "astype", "conjugate"):
                return a
            if name in ("is_integer",):
                return prim("bool", lab=a.lab)
            if name in ("reshape", "ravel", "flatten"):
                # numpy scalar
                return self.arr(st, node, (R(ONE),), None, a)
            if name in ("mean", "sum", "min", "max"):
                return a
            if name in ("any", "all"):
                return BOOL.withlab(a.lab)
            if name == "tolist":
                return a
            if name == "round":
                from .interp import Args
                return self.np_elem("round", Args([a] + args.pos, args.kw),
                                    node, st)
            if hasattr(0.0, name) or hasattr(0, name):
                return prim("unk", lab=a.lab | self.labs(args.all(), st))
            self.raise_alt("AttributeError", st)
            return None
        # unknown receiver: it may call back, result carries all labels
        self.I.emit("unknown-method", node, recv=a, name=name, args=args,
                    st=st)
        self.I.may_raise(st)
        for x in args.all():
            self.call_back(x, node, st)
        return prim("unk", lab=self.labs([a] + args.all(), st))

    def str_method(self, a, name, args, node, st):
        lab = a.lab | self.labs(args.all(), st, 2)
        vs = list(args.pos)
        if name == "join":
            h = self.heap(vs[0].single(), st) if vs else None
            e, pre, sp = self.elements(vs[0], st, node) if vs else (
                UNK, None, None)
            lab = a.lab | self.labs([e], st)
            if a.is_const() and pre is not None and all(
                x.is_const() and isinstance(x.const(), str) for x in pre
            ):
                return const(a.const().join(x.const() for x in pre), lab)
            if h is not None and isinstance(h, Seq):
                for x in pre or [e]:
                    if x.only_consts() and any(
                            not isinstance(c.v, str) for c in x.consts):
                        self.raise_alt("TypeError", st)
            f = {}
            if pre is not None and h is not None and getattr(
                    h, "rest", 0) is None and a.is_const():
                f = self.pcat(pre, a.const())
            return V(E0, frozenset(("str",)), E0, lab, f)
        if name == "format":
            for x in args.all():
                self.stringify(x, st, node)
            t = a.const() if a.is_const() else None
            m = re.fullmatch(r"\{0?(?::([^{}]*))?\}", t) if isinstance(
                t, str) else None
            if m and len(vs) == 1 and not args.kw and not vs[0].is_const():
                return self.formatted(vs[0], m.group(1) or "", st)
        if a.only_consts() and all(
            isinstance(c.v, str) for c in a.consts
        ) and all(v.is_const() for v in vs) and not args.kw and \
                args.rest is None:
            outs = []
            for c in a.consts:
                try:
                    r = getattr(c.v, name)(*[v.const() for v in vs])
                except AttributeError:
                    self.raise_alt("AttributeError", st)
                    continue
                except (ValueError, IndexError, KeyError) as e:
                    self.raise_alt(type(e).__name__, st)
                    continue
                except TypeError:
                    self.raise_alt("TypeError", st)
                    continue
                if isinstance(r, (list, tuple)):
                    outs.append(self.seq(
                        st, node, "list" if isinstance(r, list)
                        else "tuple", [const(x, lab) for x in r],
                        extra=("sm", c.v)))
                elif isinstance(r, (str, int, bool, float)):
                    outs.append(const(r, lab))
                else:
                    outs.append(UNK.withlab(lab))
            if not outs:
                return None
            return joinall(outs)
        if name in ("split", "rsplit", "splitlines", "partition",
                    "rpartition"):
            self.I.may_raise(st) if False else None
            e = V(E0, frozenset(("str",)), E0, lab, {})
            es = [e, e, e] if "part" in name else [e]
            sep = self.c(vs[0]) if vs else None
            if "path" in a.f and isinstance(sep, str) and name in (
                    "split", "partition"):
                es[0] = self.ptext(("head", sep, a.f["path"]), lab)
            return self.seq(st, node, "tuple" if "part" in name
                            else "list", es, None if "part" in name else e)
        if name in ("strip", "rstrip", "lstrip", "replace", "lower",
                    "upper", "title", "encode", "decode", "removesuffix",
                    "removeprefix"):
            f = {k: x for k, x in a.f.items()
                 if k in ("strof", "role", "ang", "fmt")}
            cs = set()
            if all(v.is_const() for v in vs):
                for c in a.consts:
                    try:
                        r = getattr(c.v, name)(*[v.const() for v in vs])
                        if isinstance(r, str):
                            cs.add(Const(r))
                    except Exception:
                        pass
            return V(E0, a.prims & {"str"}, frozenset(cs), lab, f) if (
                a.prims & {"str"} or cs) else STR.withlab(lab)
        if name in ("startswith", "endswith", "isdigit", "isnumeric",
                    "isalpha", "isspace", "isidentifier", "isupper",
                    "islower", "isalnum", "isdecimal"):
            return prim("bool", lab=lab)
        if name in ("find", "rfind", "index", "count", "rindex"):
            if name.endswith("index"):
                self.I.may_raise(st)
            return prim("int", lab=lab)
        if name == "__len__":
            return prim("int", lab=lab)
        if not hasattr("", name):
            self.raise_alt("AttributeError", st)
            return None
        return V(E0, frozenset(("str",)), E0, lab, {})

    # ---- lists, tuples, iterators
    def seq_write(self, o, h, node, st, what, value=BOT):
        self.I.emit("write", node, loc=o, what=what, field=None,
                    value=value, st=st, old=h)

    def list_extend(self, o, rhs, st, node):
        h = st.heap[o]
        self.seq_write(o, h, node, st, "extend",)
        pre, rest, sp = self.merge_iter(self.iter_alts(rhs, st, node))
        n = st.edit(o)
        was_empty = not n.prefix and (n.rest is None or n.rest.bottom())
        if n.rest is None and not n.multi and len(n.prefix) + len(
            pre
        ) <= 40:
            n.prefix = n.prefix + tuple(pre)
            if rest is not None:
                n.rest = rest
        else:
            es = ([n.rest] if n.rest is not None else []) + list(pre)
            if rest is not None:
                es.append(rest)
            n.rest = joinall(es, BOT)
        n.space = sp if was_empty and not h.multi else None

    def list_method(self, o, h, a, name, args, node, st):
        from .interp import Args
        if name in MUT_LIST and h.typ == "tuple":
            self.raise_alt("AttributeError", st)
            return None
        if name in ("append", "appendleft"):
            v = args.get(0, "object", UNK)
            self.seq_write(o, h, node, st, name, v)
            n = st.edit(o)
            v = v.withlab(self.pc_lab(st))
            if n.rest is None and not n.multi and len(n.prefix) < 24:
                n.prefix = n.prefix + (v,)
            else:
                n.rest = v if n.rest is None else join(n.rest, v)
            n.space = None
            return NONE
        if name == "extend":
            self.list_extend(o, args.get(0, None, UNK), st, node)
            return NONE
        if name == "insert":
            v = args.get(1, None, UNK)
            self.seq_write(o, h, node, st, name, v)
            n = st.edit(o)
            k = self.c(args.get(0, None, UNK))
            if n.rest is None and isinstance(k, int) and not n.multi:
                pre = list(n.prefix)
                pre.insert(k, v)
                n.prefix = tuple(pre)
            else:
                e = join(n.elem(), v)
                n.prefix = ()
                n.rest = e
            n.space = None
            return NONE
        if name == "pop":
            self.seq_write(o, h, node, st, name)
            if h.rest is None and not h.prefix:
                self.raise_alt("IndexError", st)
                return None
            n = st.edit(o)
            k = self.c(args.get(0, None), -1)
            if n.rest is None and isinstance(k, int) and -len(
                n.prefix
            ) <= k < len(n.prefix) and not n.multi:
                pre = list(n.prefix)
                r = pre.pop(k)
                n.prefix = tuple(pre)
            else:
                self.I.may_raise(st)
                r = n.elem()
                e = n.elem()
                n.prefix = ()
                n.rest = e
            n.space = None
            return r
        if name == "remove":
            self.seq_write(o, h, node, st, name)
            v = args.get(0, None, UNK)
            if h.rest is None and not h.prefix:
                self.raise_alt("ValueError", st)
                return None
            n = st.edit(o)
            done = False
            if n.rest is None and v.is_const() and not n.multi:
                pre = list(n.prefix)
                for i, x in enumerate(pre):
                    t = self.eq_truth(x, v, st)
                    if t == {True}:
                        del pre[i]
                        n.prefix = tuple(pre)
                        done = True
                        break
                    if t != {False}:
                        break
                else:
                    self.raise_alt("ValueError", st)
                    return None
            if not done:
                self.I.may_raise(st)
                if self.I.want_implicit:
                    self.raise_alt("ValueError", st)
                e = n.elem()
                n.prefix = ()
                n.rest = e
            n.space = None
            return NONE
        if name == "clear":
            self.seq_write(o, h, node, st, name)
            n = st.edit(o)
            if n.multi:
                n.rest = n.elem()
                n.prefix = ()
            else:
                n.prefix, n.rest = (), None
            n.space = None
            return NONE
        if name in ("sort", "reverse"):
            self.seq_write(o, h, node, st, name)
            key = args.kw.get("key")
            if key is not None and not h.elem().bottom():
                self.I.call(key, Args([h.elem()]), node, st)
            n = st.edit(o)
            if name == "reverse" and n.rest is None and not n.multi:
                n.prefix = tuple(reversed(n.prefix))
            elif name == "sort" and n.rest is None and not n.multi and (
                    key is None and len(n.prefix) > 1):
                from .interp import Args
                r = self.b_sorted(Args([self.seq(
                    st, node, "list", n.prefix, extra="srt")], args.kw),
                    node, st)
                n = st.edit(o)
                n.prefix = st.heap[r.single()].prefix
            elif n.rest is None:
                e = joinall(list(n.prefix), BOT)
                n.prefix = tuple([e] * len(n.prefix))
            else:
                e = n.elem()
                n.prefix = ()
                n.rest = e
            if n.space is not None:
                n.space = ("sorted" if name == "sort" else "flip", n.space)
            return NONE
        if name == "copy":
            return self.copy_seq(st, node, h)
        if name in ("index",):
            x = args.get(0, None)
            if x is not None and h.rest is None and len(args.pos) == 1:
                ts = [self.eq_truth(e, x, st) for e in h.prefix]
                k = next((i for i, t in enumerate(ts) if t != {False}), None)
                if k is None:
                    self.raise_alt("ValueError", st)
                    return None
                if ts[k] == {True}:
                    return const(k, self.labs(args.all(), st, 2)
                                 | h.elem().lab)
            self.I.may_raise(st)
            f = {"iv": (0, INF, False, True)}
            if h.space is not None:
                f["ix"] = (h.space, self.I.site(node))
            return V(E0, frozenset(("int",)), E0, self.labs(
                args.all(), st, 2) | h.elem().lab, f)
        if name == "count":
            return prim("int", lab=self.labs([a] + args.all(), st, 2))
        if name == "__len__":
            return self.b_len(Args([a]), node, st)
        if name == "__iter__":
            return self.b_iter(Args([a]), node, st)
        if name == "__next__":
            return self.b_next(Args([a]), node, st)
        if name == "__getitem__":
            return self.getitem(a, args.get(0, None, UNK), st, node)
        if name == "__setitem__":
            self.setitem(a, args.get(0, None, UNK), args.get(1, None, UNK),
                         st, node)
            return NONE
        if name == "__delitem__":
            self.delitem(a, args.get(0, None, UNK), st, node)
            return NONE
        if name == "__contains__":
            return prim("bool", lab=self.labs([a] + args.all(), st, 2))
        if name == "send":
            return self.b_next(Args([a]), node, st)
        if name in ("close",):
            return NONE
        self.raise_alt("AttributeError", st)
        return None

    def pc_lab(self, st):
        return st.pc

    def set_method(self, o, h, a, name, args, node, st):
        if name in MUT_SET:
            v = args.get(0, None, BOT)
            self.seq_write(o, h, node, st, name, v)
            n = st.edit(o)
            if name == "add":
                v = v.withlab(st.pc)
                if v not in n.prefix:
                    if n.rest is None and not n.multi and len(
                        n.prefix
                    ) < 16:
                        n.prefix = n.prefix + (v,)
                    else:
                        n.rest = v if n.rest is None else join(n.rest, v)
            elif name == "update":
                for x in args.pos:
                    e, _, _ = self.elements(x, st, node)
                    n.rest = e if n.rest is None else join(n.rest, e)
            elif name == "clear" and not n.multi:
                n.prefix, n.rest = (), None
            else:
                e = n.elem()
                n.prefix, n.rest = (), e
                if name == "pop":
                    return e.withlab(frozenset(("setorder",)))
            n.space = None
            return NONE
        if name == "copy":
            return self.copy_seq(st, node, h)
        if len(args.pos) == 1 and name in SETOPS:
            h2 = self.heap(args.pos[0].single(), st)
            if not isinstance(h2, Seq):
                p, r, _ = self.merge_iter(
                    self.iter_alts(args.pos[0], st, node))
                h2 = Seq("set", p, r, None)
            if name in ("issubset", "issuperset", "isdisjoint"):
                x, y = self.const_set(h), self.const_set(h2)
                if x is not None and y is not None:
                    return const(getattr(x, name)(y),
                                 self.labs([a] + args.all(), st, 2))
            else:
                v = self.const_sets(SETOPS[name], h, h2, st, node)
                if v is not None:
                    return v
        if name in ("union", "intersection", "difference",
                    "symmetric_difference"):
            es = [h.elem()]
            for x in args.pos:
                e, _, _ = self.elements(x, st, node)
                if name in ("union", "symmetric_difference"):
                    es.append(e)
            return self.seq(st, node, "set", (), joinall(es, BOT))
        return prim("bool", lab=self.labs([a] + args.all(), st, 2))

    # ---- dicts
    def dict_fromkeys(self, args, node, st):
        p, r, _ = self.merge_iter(self.iter_alts(args.pos[0], st, node))
        d = Dict()
        v = args.get(1, "value", NONE)
        for k in p:
            self.dict_put(d, k, v, st=st)
        if r is not None:
            self.dict_put(d, r, v, st=st)
        return obj(self.new(st, node, d, "fromkeys"))

    def dict_update(self, o, rhs, st, node):
        h = st.heap[o]
        self.I.emit("write", node, loc=o, what="update", field=None,
                    value=rhs, st=st, old=h)
        for a in self.alts(rhs):
            x = a.single()
            hx = self.heap(x, st)
            n = st.edit(o)
            if isinstance(hx, Dict):
                m = self.dict_merge(n, hx)
                if n.multi:
                    m = n.join(m)
                m.multi = n.multi
                m.ks = None
                m.space = None
                st.heap[o] = m
            elif isinstance(hx, Seq):
                p, r, s = self.merge_iter(self.iter_alts(a, st, node))
                for y in p:
                    k, v = self.pair(y, st, node)
                    self.dict_put(n, k, v, weak=n.multi, st=st)
                if r is not None:
                    k, v = self.pair(r, st, node)
                    self.dict_put(n, k, v, weak=True, st=st)
            else:
                u = prim("unk", lab=self.labs([a], st))
                self.dict_put(n, u, u, weak=True)

    def dict_method(self, o, h, a, name, args, node, st):
        from .interp import Args
        lab = a.lab
        if name == "keys":
            sure = [V(consts=frozenset((k,)), lab=lab) for k in h.items
                    if k not in h.maybe]
            k, p, r, s = self.iter_obj(o, lab, st, node)[0]
            q = Seq("list", p, r, ("keys", o))
            return obj(self.new(st, node, q))
        if name in ("values", "items"):
            def pack(k, v, i):
                if name == "values":
                    return v.withlab(lab)
                return self.seq(st, node, "tuple", [k, v],
                                extra=("it", i))
            pre = [pack(self.keyval(k, st), v, k)
                   for k, v in h.items.items() if k not in h.maybe]
            rk = [self.keyval(k, st) for k in h.items if k in h.maybe]
            rv = [h.items[k] for k in h.items if k in h.maybe]
            if h.rk is not None:
                rk.append(h.rk)
                rv.append(h.rv)
            rest = pack(joinall(rk), joinall(rv), "r") if rk else None
            self.I.emit("dict-read", node, loc=o, key=UNK, st=st)
            return self.seq(st, node, "list", pre, rest, ("keys", o))
        if name == "get":
            k = args.get(0, None, UNK)
            d = args.get(1, None, NONE)
            r = self.dict_getitem(o, h, k, st, node, missing=False)
            sure = k.is_const() and Const(k.const()) in h.items and Const(
                k.const()) not in h.maybe
            if sure:
                return r
            return join(r, d) if r is not None else d
        if name == "setdefault":
            k = args.get(0, None, UNK)
            d = args.get(1, None, NONE)
            sure = k.is_const() and Const(k.const()) in h.items and Const(
                k.const()) not in h.maybe
            if sure:
                return h.items[Const(k.const())]
            self.I.emit("write", node, loc=o, what="setdefault",
                        field=None, value=d, st=st, old=h, key=k)
            n = st.edit(o)
            old = self.dict_getitem(o, h, k, st, node, missing=False)
            v = join(old, d) if old is not None else d
            self.dict_put(n, k, v, weak=n.multi, st=st)
            if k.is_const() and not n.multi:
                n.maybe = n.maybe - {Const(k.const())}
            n.ks = None
            return v
        if name == "pop":
            k = args.get(0, None, UNK)
            d = args.get(1, None)
            self.I.emit("write", node, loc=o, what="pop", field=None,
                        value=BOT, st=st, old=h, key=k)
            r = self.dict_getitem(o, h, k, st, node, missing=d is None)
            n = st.edit(o)
            if k.is_const() and not n.multi:
                n.items.pop(Const(k.const()), None)
                n.maybe = n.maybe - {Const(k.const())}
            else:
                n.maybe = frozenset(n.items)
            n.ks = None
            if r is None:
                return d
            return join(r, d) if d is not None else r
        if name == "popitem":
            self.I.emit("write", node, loc=o, what="popitem", field=None,
                        value=BOT, st=st, old=h)
            n = st.edit(o)
            n.maybe = frozenset(n.items)
            n.ks = None
            return self.seq(st, node, "tuple", [joinall([
                self.keyval(k, st) for k in h.items] + (
                    [h.rk] if h.rk is not None else [])), h.elem()])
        if name == "update":
            v = args.get(0, None)
            if v is not None:
                self.dict_update(o, v, st, node)
            if args.kw:
                d = Dict({Const(k): x for k, x in args.kw.items()})
                l = self.new(st, node, d, "upd")
                self.dict_update(o, obj(l), st, node)
            if args.kwrest is not None:
                self.I.emit("write", node, loc=o, what="update",
                            field=None, value=args.kwrest, st=st, old=h)
                n = st.edit(o)
                self.dict_put(n, STR, args.kwrest, weak=True)
            if v is None and not args.kw and args.kwrest is None:
                pass
            return NONE
        if name == "clear":
            self.I.emit("write", node, loc=o, what="clear", field=None,
                        value=BOT, st=st, old=h)
            n = st.edit(o)
            if n.multi:
                n.maybe = frozenset(n.items)
            else:
                n.items = {}
                n.maybe = E0
                n.rk = n.rv = None
            n.ks = None
            return NONE
        if name == "copy":
            d = h.clone()
            d.multi = False
            return obj(self.new(st, node, d))
        if name == "fromkeys":
            return self.dict_fromkeys(args, node, st)
        if name == "__getitem__":
            return self.getitem(a, args.get(0, None, UNK), st, node)
        if name == "__setitem__":
            self.setitem(a, args.get(0, None, UNK), args.get(1, None, UNK),
                         st, node)
            return NONE
        if name == "__delitem__":
            self.delitem(a, args.get(0, None, UNK), st, node)
            return NONE
        if name == "__contains__":
            return prim("bool", lab=self.labs([a] + args.all(), st, 2))
        if name == "__len__":
            return self.b_len(Args([a]), node, st)
        if name == "__iter__":
            return self.b_iter(Args([a]), node, st)
        if name in ("__eq__", "__ne__"):
            return BOOL
        self.raise_alt("AttributeError", st)
        return None

    # ---- files
    def file_method(self, o, h, a, name, args, node, st):
        if name in ("close",):
            self.file_close(o, st)
            return NONE
        if name in ("__enter__",):
            return a
        if name in ("write", "writelines"):
            self.I.emit("file-write", node, loc=o, st=st)
            v = args.get(0, None, UNK)
            if self.I.want_implicit:
                self.raise_alt("OSError", st)
            self.file_append(h, v, st, node)
            return INT
        if name in ("flush", "seek", "truncate"):
            if name == "seek" and self.c(args.get(0, None, UNK)) == 0:
                st.edit(o).pos = 0
            elif name == "seek":
                st.edit(o).pos = None
            return INT
        if name in ("readline", "read", "readlines", "__next__"):
            self.I.emit("file-read", node, loc=o, st=st)
            if self.I.want_implicit:
                self.raise_alt("OSError", st)
                self.raise_alt("UnicodeDecodeError", st)
            q = self.file_seq(h.path, st)
            sh = st.heap.get(q) if q is not None else None
            unk = STR.withlab(frozenset(("FILE",)) | h.path.lab)
            if sh is None:
                if name == "readlines":
                    return self.seq(st, node, "list", (), unk)
                return unk
            pos = h.pos
            if name in ("readline", "__next__"):
                if pos is not None and pos < len(sh.prefix):
                    r = sh.prefix[pos]
                    st.edit(o).pos = pos + 1
                else:
                    r = sh.rest if sh.rest is not None else const("")
                return self.line_text(r, st)
            if name == "read":
                if len(sh.prefix) == 1 and sh.rest is None and not pos:
                    return self.line_text(sh.prefix[0], st)
                return unk
            return self.seq(st, node, "list", (), unk)
        self.I.may_raise(st)
        return UNK

    def line_text(self, rec, st):
        outs = []
        for a in self.alts(rec):
            h = self.heap(a.single(), st)
            if isinstance(h, Seq) and h.typ == "row":
                d = h.extra[1] if isinstance(h.extra, tuple) else ","
                if h.rest is None and all(
                    x.is_const() and isinstance(x.const(), str)
                    for x in h.prefix
                ):
                    outs.append(const(str(d).join(
                        x.const() for x in h.prefix) + "\r\n"))
                else:
                    lab = self.labs(list(h.prefix) + (
                        [h.rest] if h.rest is not None else []), st)
                    outs.append(STR.withlab(lab))
            else:
                outs.append(a)
        return joinall(outs, STR)

    # ---- arrays
    def arr_method(self, o, a, name, args, node, st):
        from .interp import Args
        if name in ("copy",):
            return self.to_array(a, st, node, copy=True)
        if name == "astype":
            r = self.to_array(a, st, node, copy=True)
            t = args.get(0, "dtype", UNK).single()
            if isinstance(t, Ext) and t.path in ("builtins.int",
                                                 "numpy.int_"):
                return self.elementwise(
                    lambda x: V(E0, frozenset(("int",)), E0, x.lab,
                                dict({k: y for k, y in x.f.items()
                                      if k in ("ang", "role")},
                                     trunc=True)), [r], st, node)
            return r
        if name == "tolist":
            return self.tolist(o, a, st, node)
        if name in ("ravel",):
            return self.ravel(a, st, node)
        if name == "flatten":
            return self.ravel(a, st, node, view=False)
        if name == "reshape":
            vs = list(args.pos)
            return self.reshape(a, vs if args.rest is None and vs else
                                None, st, node)
        if name in ("transpose", "swapaxes"):
            return self.arr_attr(o, "T", st, node).withlab(a.lab)
        if name in ("mean", "sum", "min", "max", "std", "var", "cumsum",
                    "prod", "ptp"):
            return self.np_reduce(name, Args([a] + args.pos, args.kw),
                                  node, st)
        if name in ("any", "all"):
            return self._npanyall(Args([a] + args.pos, args.kw), node, st,
                                  name == "any")
        if name in ("argmin", "argmax"):
            return self._argminmax(Args([a] + args.pos, args.kw), node, st)
        if name == "argsort":
            return self.np_argsort(Args([a]), node, st)
        if name == "dot":
            return self.np_dot(Args([a] + args.pos), node, st)
        if name == "squeeze":
            return self.np_squeeze(Args([a]), node, st)
        if name == "round":
            return self.np_elem("round", Args([a] + args.pos, args.kw), node,
                                st)
        if name == "clip":
            return self.np_clip(Args([a] + args.pos, args.kw), node, st)
        if name == "nonzero":
            return self.np_nonzero(Args([a]), node, st)
        if name == "item":
            return self.arr_join(o, st).withlab(a.lab)
        if name == "take":
            return self.getitem(a, args.get(0, "indices", UNK), st, node)
        if name == "repeat":
            return self.np_tile(Args([a]), node, st)
        if name in ("view", "__array__", "conj", "conjugate"):
            return a
        if name == "__len__":
            return self.b_len(Args([a]), node, st)
        if name == "__iter__":
            return self.b_iter(Args([a]), node, st)
        if name == "__getitem__":
            return self.getitem(a, args.get(0, None, UNK), st, node)
        if name == "__setitem__":
            self.setitem(a, args.get(0, None, UNK), args.get(1, None, UNK),
                         st, node)
            return NONE
        if name in MUT_ARR:
            self.I.emit("write", node, loc=o.buf, what=name, field=None,
                        value=args.get(0, None, BOT), st=st,
                        old=st.heap.get(o.buf))
            if o.buf in st.heap:
                b = st.edit(o.buf)
                if name == "fill":
                    v = args.get(0, "value", UNK)
                    self._weak_all(b, v)
                if name in ("sort", "partition"):
                    b.prov = None
            return NONE
        if not hasattr(_ndarray_names, name) and False:
            pass
        self.unmodelled["ndarray." + name] = self.unmodelled.get(
            "ndarray." + name, 0) + 1
        return prim("unk", lab=self.labs([a] + args.all(), st))

    def tolist(self, o, a, st, node):
        d = self.desc_arr(o, st, a.lab)

        def build(axes, sel, k):
            if not axes:
                return self.arr_join(Arr(o.buf, (), sel), st)
            ax = axes[0]
            b = st.heap.get(o.buf)
            if ax == "F" and b is not None and b.fields is not None:
                idx = sel if sel is not None else tuple(
                    range(len(b.fields)))
                pre = [build(axes[1:], (i,), k + (i,)) for i in idx]
                rest = None
                if sel is None and b.rest is not None:
                    rest = build(axes[1:], ("rest",), k + ("r",))
                return self.seq(st, node, "list", pre, rest,
                                extra=("tl",) + k)
            return self.seq(st, node, "list", (), build(
                axes[1:], sel, k + ("x",)),
                ax[1] if ax != "F" else None, extra=("tl",) + k)
        return build(o.axes, o.sel, ()).withlab(a.lab)


def _sample_fn():
    pass


_ndarray_names = object()


def _exc_names():
    return _EXC


_EXC = {
    n for n in dir(_b)
    if isinstance(getattr(_b, n), type)
    and issubclass(getattr(_b, n), BaseException)
}


def _exc(p):
    from .interp import ExcInst
    return ExcInst(p.split("builtins.")[-1] if p.startswith("builtins.")
                   else p)


_DTF = {"%X": "HMS", "%H:%M:%S": "HMS", "%x": "dmy"}


def _dtfields(fmt):
    out = []
    i = 0
    while i < len(fmt):
        if fmt[i] == "%" and i + 1 < len(fmt):
            c = fmt[i + 1]
            out += {"X": ["H", ":", "M", ":", "S"], "T": [
                "H", ":", "M", ":", "S"], "F": ["Y", "-", "m", "-", "d"]
            }.get(c, [c])
            i += 2
        else:
            out.append(fmt[i])
            i += 1
    return out


def _dtlost(fmt):
    have = set(_dtfields(fmt))
    lost = []
    for c, nm in (("d", "day"), ("m", "month"), ("H", "hour"),
                  ("M", "minute"), ("S", "second"), ("f", "microsecond")):
        if c not in have and not (c in "dm" and "j" in have):
            lost.append(nm)
    if not have & {"Y", "y"}:
        lost.append("year")
    return tuple(lost)


# ------------------------------------------------------------ contracts
class Plain:
    def getattr(self, I, o, h, name, st, node):
        if name in h.fields:
            return h.fields[name]
        return V(frozenset((ExtBound(obj(o), name),)))

    def setattr(self, I, o, h, name, val, st, node):
        I.emit("write", node, loc=o, what="." + name, field=name,
               value=val, st=st, old=h.fields.get(name))
        st.edit(o).fields[name] = val

    def call(self, I, o, h, args, st, node):
        return prim("unk", lab=I.ext.labs(args.all(), st))

    def method(self, I, o, h, name, args, st, node):
        return prim("unk", lab=I.ext.labs(args.all() + [obj(o)], st))


class FInfo(Plain):
    def getattr(self, I, o, h, name, st, node):
        if name in ("eps", "tiny", "resolution", "max", "smallest_normal"):
            return prim("float", iv=(0, INF, True, False))
        return FLOAT


class Hull(Plain):
    pass


class CsvWriter(Plain):
    def row(self, I, h, v, st, node, extra):
        ext = I.ext
        d = ext.c(h.fields["delim"], ",")
        rows = []
        for k, pre, rest, sp in ext.iter_alts(v, st, node):
            pre = [ext.cell(x, st) for x in pre]
            r = ext.cell(rest, st) if rest is not None and not \
                rest.bottom() else rest
            q = Seq("row", pre, r, sp, ("delim", d))
            rows.append(obj(I.alloc(st, node, q, extra)))
            vh = st.heap.get(v.single())
            rs = vh.extra[-1] if isinstance(vh, Seq) and isinstance(
                vh.extra, tuple) and vh.extra[:1] == ("restspace",) else None
            st.heap[rows[-1].single()].extra = ("delim", d, rs)
        return joinall(rows)

    def method(self, I, o, h, name, args, st, node):
        ext = I.ext
        f = h.fields["file"].single()
        fh = st.heap.get(f) if isinstance(f, Loc) else None
        I.emit("file-write", node, loc=f, st=st)
        if I.want_implicit:
            ext.raise_alt("OSError", st)
        if name == "writerow":
            v = args.get(0, "row", UNK)
            n = 0
            if isinstance(fh, File):
                q = ext.file_seq(fh.path, st)
                sh = st.heap.get(q) if q is not None else None
                n = len(sh.prefix) if sh is not None else 0
            r = self.row(I, h, v, st, node, ("wr", n))
            if isinstance(fh, File):
                ext.file_append(fh, r, st, node)
            return NONE
        if name == "writerows":
            v = args.get(0, "rows", UNK)
            pre, rest, sp = ext.merge_iter(ext.iter_alts(v, st, node))
            if isinstance(fh, File):
                for i, x in enumerate(pre):
                    ext.file_append(fh, self.row(I, h, x, st, node,
                                                 ("wrs", i)), st, node)
                if rest is not None and not rest.bottom():
                    q = ext.file_seq(fh.path, st)
                    if q is not None and q in st.heap:
                        r = self.row(I, h, rest, st, node, ("wrs", "r"))
                        n = st.edit(q)
                        n.extra = ("restsp", sp) if n.rest is None and not \
                            pre and sp is not None else None
                        n.rest = r if n.rest is None else join(n.rest, r)
            return NONE
        return UNK


class Partial(Plain):
    def call(self, I, o, h, args, st, node):
        from .interp import Args
        pre = list(st.heap[h.fields["args"].single()].prefix)
        kw = {k[3:]: v for k, v in h.fields.items()
              if k.startswith("kw:")}
        kw.update(args.kw)
        return I.call(h.fields["func"], Args(pre + args.pos, kw,
                                             args.rest, args.kwrest),
                      node, st)


class OdrObj(Plain):
    """scipy.odr objects: running the fit calls the model function"""

    def method(self, I, o, h, name, args, st, node):
        from .interp import Args
        if name == "run":
            data = h.fields.get("0")
            model = h.fields.get("1")
            mh = st.heap.get(model.single()) if model is not None else None
            dh = st.heap.get(data.single()) if data is not None else None
            if mh is not None and dh is not None:
                fn = mh.fields.get("0", UNK)
                x = dh.fields.get("0", UNK)
                beta = h.fields.get("beta0", UNK)
                I.ext.call_back(fn, node, st, Args([beta, x]))
            lab = I.deep_labels(obj(o), st, 5)
            r = Opaque(None, Plain(), "Output")
            r.fields["beta"] = I.ext.arr(
                st, node, (R(("fit", I.site(node))),), None,
                prim("float", lab=lab), None, None, "beta")
            return obj(I.alloc(st, node, r, "odr"))
        return super().method(I, o, h, name, args, st, node)
