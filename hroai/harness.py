"""Abstract test bench: builds abstract callers of the public API.

An *entry* is an abstract client program: it builds abstract values (every
caller, every size, every number of a role/interval), calls public functions
of the analysed tree through the interpreter and records what happened.
Nothing here executes repository code.
"""
import datetime as dtm

from . import domain as D, poly
from .domain import (
    E0, FLOAT, INT, NONE, STR, UNK, Arr, Bound, Buf, Class, Const, Dict, Ext,
    ExtBound, File, Frame, Func, Ghost, Inst, Loc, Module, Opaque, Seq,
    State, V, const, join, joinall, obj, prim,
)
from .extlib import Plain
from .interp import GHOST, Acc, Args, Bottom, Budget, Interp, Program
from .nparr import R

INF = float("inf")
PKG = "hrosailing"


class Gap(Exception):
    """the entry could not be analysed (never an alarm)"""


class Node:
    """synthetic syntax node of the harness"""

    def __init__(self, name):
        self._uid = ("harness", name)
        self.lineno = 0


class CallRec:
    __slots__ = ("label", "args", "kw", "ret", "exc", "pre", "post", "tags",
                 "recv", "entry", "func")


class H:
    def __init__(self, prog, absent=(), steps=1500000, base=None):
        self.prog = prog
        self.I = Interp(prog, absent=absent, steps=steps)
        self.ext = self.I.ext
        self.st = State()
        self.st.heap[GHOST] = Ghost()
        self.st.frame = self.I.fresh_loc(self.st, Frame(None), "harness")
        self.owned = {}  # Loc -> description of the caller's object
        self.watch = {}  # Loc -> (description) of receivers to keep frozen
        self.calls = []
        self.rules = []
        self.phase = "load"
        self.entry = None
        self.I.listeners.append(self._event)
        poly.reset()
        self.n = 0
        self.gaps = []
        self.events = 0
        self.cur = None
        self.path = []  # functions entered by the last observed call

    # -------------------------------------------------------- events
    def _event(self, kind, node, data):
        self.events += 1
        if kind == "call" and len(self.path) < 40 and self.phase == "call":
            i = data["info"]
            if i not in self.path and not i.mod.path.startswith("<client"):
                self.path.append(i)
        for r in self.rules:
            fn = getattr(r, "on_event", None)
            if fn is not None:
                fn(self, kind, node, data)

    def load(self, mods=None):
        for m in mods or self.prog.own_modules():
            try:
                self.I.load_module(m, self.st)
            except Bottom:
                self.gaps.append(f"module {m} cannot be imported")
        self.phase = "setup"

    # -------------------------------------------------------- names
    def node(self, name="h"):
        self.n += 1
        return Node((name, self.n))

    def get(self, path):
        """value of a dotted name of the analysed package"""
        parts = path.split(".")
        for i in range(len(parts), 0, -1):
            mn = ".".join(parts[:i])
            if mn in self.prog.modules:
                try:
                    loc = self.I.load_module(mn, self.st)
                except Bottom:
                    raise Gap(f"{mn} cannot be imported")
                v = obj(loc)
                for p in parts[i:]:
                    if isinstance(self.st.heap.get(v.single()), Module):
                        fr = self.st.heap[self.st.heap[v.single()].frame]
                        if p not in fr.vars:
                            raise Gap(f"no public name {path}")
                    v = self.attr(v, p)
                return v
        raise Gap(f"no module for {path}")

    def client(self, name, src):
        """load a module of the caller; returns its dotted name"""
        full = self.prog.client(name, src)
        saved = self.I.A
        self.I.A = Acc()
        try:
            self.I.load_module(full, self.st)
        except Bottom:
            raise Gap(f"client {name} cannot be loaded")
        finally:
            self.I.A = saved
        return full

    def cls_of(self, *paths):
        """class location by any of several names, None if there is none"""
        for p in paths:
            try:
                return self.get(p).single()
            except Gap:
                pass
        return None

    def attr(self, v, name):
        """read an attribute (properties are called)"""
        n = self.node("attr." + name)
        saved = self.I.A
        self.I.A = Acc()
        try:
            return self.I.getattr_(v, name, self.st, n)
        except Bottom:
            raise Gap(f"attribute {name} cannot be read")
        finally:
            self.I.A = saved

    # -------------------------------------------------------- calls
    def call(self, label, f, *args, tags=(), recv=None, **kw):
        """an observed call of the public API"""
        rec = CallRec()
        rec.label = label
        rec.entry = self.entry
        rec.args = [self.val(a) for a in args]
        rec.kw = {k: self.val(a) for k, a in kw.items()}
        rec.tags = frozenset(tags)
        rec.pre = self.st.clone()
        rec.recv = recv
        rec.func = f
        self.cur = rec
        self.path = []
        for r in self.rules:
            fn = getattr(r, "before_call", None)
            if fn is not None:
                fn(self, rec)
        saved = self.I.A
        self.I.A = Acc()
        n = self.node(label)
        st = self.st.clone()
        ph = self.phase
        self.phase = "call"
        try:
            rec.ret = self.I.call(f, Args(rec.args, rec.kw), n, st)
            rec.post = st
        except Bottom:
            rec.ret = None
            rec.post = None
        finally:
            rec.exc = self.I.A.exc
            self.I.A = saved
            self.phase = ph
        if rec.post is not None:
            self.st = rec.post
        self.calls.append(rec)
        for r in self.rules:
            fn = getattr(r, "on_call", None)
            if fn is not None:
                fn(self, rec)
        self.cur = None
        return rec

    def meth(self, label, o, name, *args, tags=(), **kw):
        f = self.attr(o, name)
        return self.call(label, f, *args, tags=tags, recv=o, **kw)

    def new(self, label, path, *args, tags=(), **kw):
        f = self.get(path) if isinstance(path, str) else path
        r = self.call(label, f, *args, tags=set(tags) | {"ctor"}, **kw)
        if r.ret is None:
            raise Gap(f"{label}: never returns")
        return r.ret

    def do(self, label, f, *args, **kw):
        r = self.call(label, f, *args, **kw)
        if r.ret is None:
            raise Gap(f"{label}: never returns")
        return r.ret

    def quiet_do(self, f):
        """evaluate something outside of the observed program"""
        saved, self.I.A = self.I.A, Acc()
        rules, self.rules = self.rules, []
        try:
            return f()
        finally:
            self.I.A, self.rules = saved, rules

    def expect(self, label, v, spec):
        """what is documented about a value (decided by the rules)"""
        for r in self.rules:
            fn = getattr(r, "on_expect", None)
            if fn is not None:
                class Cur:
                    pass
                self.cur = Cur()
                self.cur.label = label
                fn(self, label, v, spec)
                self.cur = None

    def quiet(self, f, *args, **kw):
        """set-up call without a call record"""
        saved = self.I.A
        self.I.A = Acc()
        try:
            return self.I.call(
                f, Args([self.val(a) for a in args],
                        {k: self.val(a) for k, a in kw.items()}),
                self.node("quiet"), self.st)
        except Bottom:
            raise Gap("set-up call never returns")
        finally:
            self.I.A = saved

    def val(self, a):
        if isinstance(a, V):
            return a
        if a is None or isinstance(a, (bool, int, float, str, dtm.date,
                                       dtm.time, dtm.timedelta)):
            return const(a)
        raise TypeError(a)

    # -------------------------------------------------------- values
    def space(self, name, ne=True):
        return ("root", name, "ne") if ne else ("root", name)

    def num(self, role=None, ang=None, raw=False, iv=None, lab=(),
            kind="float", **f):
        f = dict(f)
        if role:
            f["role"] = role
        if ang:
            f["ang"] = {"deg": D.DEG, "rad": D.RAD}[ang]
        if raw:
            f["raw"] = True
        if iv is not None:
            f["iv"] = iv
        return V(prims=frozenset((kind,)), lab=frozenset(lab), f=f)

    def ws(self, lab=(), iv=(0, INF, True, True), role="WS"):
        return self.num(role, iv=iv, lab=lab)

    def wa(self, lab=(), raw=False, ang="deg", role="WA"):
        return self.num(role, ang=ang, raw=raw, lab=lab)

    def bsp(self, lab=(), role="BSP"):
        return self.num(role, lab=lab)

    def arr(self, axes, fields=None, elem=None, rest=None, own=None,
            lab=(), dtype=None):
        v = self.ext.arr(self.st, self.node("arr"), tuple(axes), fields,
                         elem, rest, dtype, lab=frozenset(lab))
        return self.own(v, own) if own else v

    def seq(self, prefix=(), rest=None, space=None, typ="list", own=None,
            lab=()):
        l = self.I.fresh_loc(
            self.st, Seq(typ, [self.val(p) for p in prefix], rest, space),
            typ)
        v = obj(l, lab=frozenset(lab))
        return self.own(v, own) if own else v

    def dict(self, items, own=None, rk=None, rv=None):
        d = Dict({Const(k): self.val(v) for k, v in items.items()}, rk, rv)
        v = obj(self.I.fresh_loc(self.st, d, "dict"))
        return self.own(v, own) if own else v

    def opaque(self, contract, name, cls=None, fields=None, own=None):
        o = Opaque(cls, contract, name)
        o.fields = dict(fields or {})
        v = obj(self.I.fresh_loc(self.st, o, name))
        return self.own(v, own) if own else v

    def rows(self, form, name, fields, own=None, ne=True, typ="list"):
        """a table with one row per element of an arbitrary-size space"""
        sp = self.space(name, ne)
        if form == "nd":
            return self.arr((R(sp), "F"), fields, own=own)
        row = self.seq(fields, own=None, typ="list")
        return self.seq((), row, sp, typ=typ, own=own)

    def vec(self, form, name, elem, own=None, ne=True):
        sp = self.space(name, ne)
        if form == "nd":
            return self.arr((R(sp),), elem=elem, own=own)
        return self.seq((), elem, sp, typ="tuple" if form == "tuple"
                        else "list", own=own)

    def mat(self, form, n1, n2, elem, own=None):
        s1, s2 = self.space(n1), self.space(n2)
        if form == "nd":
            return self.arr((R(s1), R(s2)), elem=elem, own=own)
        return self.seq((), self.seq((), elem, s2), s1, own=own)

    def fixed(self, form, vals, own=None):
        vals = [self.val(v) for v in vals]
        if form == "nd":
            return self.arr(("F",), vals, own=own)
        return self.seq(vals, typ="tuple" if form == "tuple" else "list",
                        own=own)

    # -------------------------------------------------------- ownership
    def reach(self, v, st=None, through=lambda h: True):
        """heap locations reachable from a value"""
        st = st or self.st
        seen = []
        done = set()
        todo = [v]
        while todo:
            x = todo.pop()
            for o in x.objs:
                if isinstance(o, Arr):
                    o = o.buf
                if isinstance(o, Bound):
                    o = o.self_
                if isinstance(o, ExtBound):
                    todo.append(o.recv)
                    continue
                if not isinstance(o, Loc) or o in done:
                    continue
                done.add(o)
                h = st.heap.get(o)
                if h is None or isinstance(
                    h, (Func, Class, Module, Frame, Ghost)
                ):
                    continue
                seen.append(o)
                if not through(h):
                    continue
                if isinstance(h, Inst):
                    todo.extend(h.fields.values())
                elif isinstance(h, Seq):
                    todo.extend(h.prefix)
                    if h.rest is not None:
                        todo.append(h.rest)
                elif isinstance(h, Dict):
                    todo.extend(h.items.values())
                    if h.rv is not None:
                        todo.append(h.rv)
                elif isinstance(h, Opaque):
                    todo.extend(h.fields.values())
                elif isinstance(h, Buf):
                    todo.append(h.all())
        return seen

    def own(self, v, name):
        for l in self.reach(v):
            self.owned.setdefault(l, name)
        return v

    def freeze(self, v, name):
        for l in self.reach(v):
            self.watch.setdefault(l, name)
        return v


def run_entry(prog, entry, rules, absent=(), steps=1500000, base=None):
    absent = tuple(absent) + tuple(
        t[8:] for t in entry.tags if t.startswith("without:"))
    h = H(prog, absent, steps)
    h.rules = rules
    h.entry = entry.name
    for r in rules:
        fn = getattr(r, "begin", None)
        if fn is not None:
            fn(h, entry)
    try:
        h.I.grids = "prov" in entry.tags  # constants of modules, defaults
        h.load()
        h.loaded = frozenset(
            l for l, hp in h.st.heap.items()
            if isinstance(hp, (Buf, Dict))
            or isinstance(hp, Seq) and hp.typ in ("list", "set", "deque"))
        entry.fn(h)
        ok = True
    except Gap as e:
        h.gaps.append(str(e))
        ok = False
    except Budget:
        h.gaps.append("analysis budget exhausted")
        ok = False
    except Bottom:
        h.gaps.append("harness expression has no value")
        ok = False
    except RecursionError:
        h.gaps.append("analysis recursion limit")
        ok = False
    except Exception as e:
        import os
        if os.environ.get("HROAI_DEBUG"):
            raise
        h.gaps.append(f"analyser error {type(e).__name__}: {e}")
        ok = False
    for r in rules:
        fn = getattr(r, "end", None)
        if fn is not None:
            fn(h, entry, ok)
    return h
