"""Flow-sensitive abstract interpreter over the syntax trees of /repo."""
import ast
import builtins as _b
import os
import sys

from . import domain as D, poly
from .domain import (
    BOOL, BOT, E0, FALSE, INT, NONE, STR, TRUE, UNK, Arr, Bound, Buf, Class,
    Const, Dict, Ext, ExtBound, File, Frame, Func, Ghost, Inst, Loc, Module,
    Opaque, Seq, State, Super, V, const, join, join_states, joinall, obj,
    split,
    prim, states_equal,
)

GHOST = Loc(("ghost",), "ghost")
BUILTIN_NAMES = set(dir(_b))


AVAILABLE = frozenset(sys.stdlib_module_names) | {
    "numpy", "scipy", "matplotlib", "mpl_toolkits", "pandas", "pynmea2",
    "netCDF4", "meteostat"}


class Bottom(Exception):
    """no continuation from here"""


class Budget(Exception):
    pass


class ExcInst:
    """instance of an external exception class"""

    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __hash__(self):
        return hash(("ExcInst", self.path))

    def __eq__(self, o):
        return isinstance(o, ExcInst) and o.path == self.path

    def __repr__(self):
        return f"exc:{self.path}"


class Acc:
    __slots__ = ("ret", "retv", "brk", "cont", "exc", "yields", "yrest",
                 "rets", "vals")

    def __init__(self):
        self.ret = None
        self.retv = BOT
        self.brk = None
        self.cont = None
        self.exc = {}
        self.yields = []
        self.yrest = None
        self.rets = 0
        self.vals = []  # (path, value) of the returns; None: not known


class Args:
    __slots__ = ("pos", "rest", "kw", "kwrest", "restsp")

    def __init__(self, pos=(), kw=None, rest=None, kwrest=None):
        self.pos = list(pos)
        self.kw = dict(kw or {})
        self.rest = rest
        self.kwrest = kwrest
        self.restsp = None  # what the elements of `rest` range over

    def all(self):
        out = list(self.pos) + list(self.kw.values())
        if self.rest is not None:
            out.append(self.rest)
        if self.kwrest is not None:
            out.append(self.kwrest)
        return out

    def get(self, i, name, default=None):
        if i is not None and i < len(self.pos):
            return self.pos[i]
        if name in self.kw:
            return self.kw[name]
        if i is not None and self.rest is not None:
            return self.rest
        return default


class FuncInfo:
    def __init__(self, mod, node, qualname):
        self.mod = mod
        self.node = node
        self.qualname = qualname
        self.is_lambda = isinstance(node, ast.Lambda)
        self.name = "<lambda>" if self.is_lambda else node.name
        self.is_gen = False
        if not self.is_lambda:
            self.is_gen = _has_yield(node)
        a = node.args
        self.params = [p.arg for p in a.posonlyargs + a.args]
        self.kwonly = [p.arg for p in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.locals_nonlocal = set()

    @property
    def full(self):
        return f"{self.mod.name}:{self.qualname}"


def _has_yield(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(
            n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                ast.AsyncFunctionDef)
        ):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class ModInfo:
    def __init__(self, name, path, src, is_pkg):
        self.name = name
        self.path = path
        self.is_pkg = is_pkg
        self.tree = ast.parse(src, path)


class Program:
    """all modules of the package, parsed from the working tree"""

    def __init__(self, root, package="hrosailing"):
        self.root = root
        self.package = package
        self.modules = {}
        self.infos = {}
        self.n_funcs = 0
        base = os.path.join(root, package)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                pkg = rel.endswith(".__init__")
                if pkg:
                    rel = rel[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    m = ModInfo(rel, p, fh.read(), pkg)
                self.modules[rel] = m
                self._number(m)
        self._uid = None

    CLIENT = "_client_"

    def client(self, name, src):
        """a module of the caller, in the name space of the package"""
        full = f"{self.package}.{self.CLIENT}{name}"
        if full not in self.modules:
            m = ModInfo(full, f"<client {name}>", src, False)
            self.modules[full] = m
            self._number(m)
        return full

    def own_modules(self):
        return [m for m in self.modules
                if not m.startswith(f"{self.package}.{self.CLIENT}")]

    def _number(self, m):
        k = 0

        def visit(node, qual, fn):
            nonlocal k
            node._uid = (m.name, k)
            node._mod = m
            node._fn = fn
            k += 1
            q = qual
            f2 = fn
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                nm = (
                    node.name
                    if isinstance(node, ast.FunctionDef)
                    else "<lambda>"
                )
                q = f"{qual}.{nm}" if qual else nm
                info = FuncInfo(m, node, q)
                self.infos[node._uid] = info
                node._info = info
                f2 = info
                self.n_funcs += 1
            elif isinstance(node, ast.ClassDef):
                q = f"{qual}.{node.name}" if qual else node.name
                node._qual = q
            for c in ast.iter_child_nodes(node):
                visit(c, q, f2)

        visit(m.tree, "", None)


class Interp:
    MAXDEPTH = 40
    MAXREC = 5

    def __init__(self, program, absent=(), steps=1500000):
        self.prog = program
        self.absent = set(absent)
        self.stubs = {}  # external function -> client function
        self.budget = steps
        self.steps = 0
        self.A = Acc()
        self.want_implicit = 0
        self.generic = False  # marked values are in general position
        self.grids = False  # small arrays are tracked cell by cell
        self.ctx = 0
        self.turn_depth = 0
        self._ctxs = {}
        self.stack = []  # (info, call node)
        self.listeners = []
        self.captured = set()
        self.loop_depth = 0
        self.cur_exc = []
        self.functions_seen = set()
        self.rec_calls = {}
        self.calls = 0
        self.unsupported = {}
        self.module_locs = {}
        self.node = None
        self.uniq = 0
        self.subclasses = {}
        from . import extern

        self.ext = extern.Extern(self)

    # ------------------------------------------------------------ infra
    def emit(self, kind, node=None, **data):
        node = node if node is not None else self.node
        for l in self.listeners:
            l(kind, node, data)

    def where(self, node):
        """construct description: file, function, line"""
        mod = getattr(node, "_mod", None)
        if mod is None:
            for info, call in reversed(self.stack):
                if call is not None and hasattr(call, "_mod"):
                    return self.where(call)
            return ("?", "?", 0)
        fn = getattr(node, "_fn", None)
        rel = os.path.relpath(mod.path, self.prog.root)
        return (
            rel,
            fn.qualname if fn is not None else "<module>",
            getattr(node, "lineno", 0),
        )

    def trail(self):
        out = []
        for info, call in self.stack:
            ln = getattr(call, "lineno", 0)
            out.append(f"{info.qualname}" + (f"@{ln}" if ln else ""))
        return " > ".join(out)

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()

    def alloc(self, st, node, o, extra=None):
        uid = getattr(node, "_uid", None) or ("x", id(node))
        key = (uid, self.ctx, extra)
        mod = getattr(node, "_mod", None)
        nm = (
            f"{o.kind}@{mod.name.split('.')[-1]}:{node.lineno}"
            if mod is not None and hasattr(node, "lineno")
            else f"{o.kind}@{extra}"
        )
        loc = Loc(key, nm)
        old = st.heap.get(loc)
        if old is not None and type(old) is type(o) and self.loop_depth:
            o = old.join(o)
            o.multi = True
        st.heap[loc] = o
        return loc

    def fresh_loc(self, st, o, name):
        self.uniq += 1
        loc = Loc(("harness", name, self.uniq), name)
        st.heap[loc] = o
        return loc

    def site(self, node, extra=None):
        return (getattr(node, "_uid", None) or ("x", 0), self.ctx, extra)

    def push_ctx(self, call_uid):
        key = (self.ctx, call_uid)
        c = self._ctxs.get(key)
        if c is None:
            c = self._ctxs[key] = len(self._ctxs) + 1
        return c

    TURNS = 2

    def max_turn(self):
        return 256 if self.grids else 40

    def turn(self, ctx, node, k, items):
        """allocation context of iteration k of an unrolled loop"""
        if len(items) < 2:
            return ctx
        uid = getattr(node, "_uid", None) or ("x", id(node))
        saved, self.ctx = self.ctx, ctx
        try:
            return self.push_ctx(("turn", uid, min(k, self.max_turn())))
        finally:
            self.ctx = saved

    def turns(self, node, items):
        """contexts for an unrolled loop; nested loops share theirs"""
        nested = self.turn_depth >= (4 if self.grids else self.TURNS)
        ctx = self.ctx
        self.turn_depth += 1
        shared = nested and len(items) > 1
        if shared:
            self.loop_depth += 1
        try:
            for k, x in enumerate(items):
                if not nested:
                    self.ctx = self.turn(ctx, node, k, items)
                    if k >= self.max_turn() and not shared:
                        shared = True
                        self.loop_depth += 1
                yield k, x
        finally:
            self.ctx = ctx
            self.turn_depth -= 1
            if shared:
                self.loop_depth -= 1

    # labels reachable from a value
    def deep_labels(self, v, st, depth=4, seen=None):
        labs = set(v.lab)
        if seen is None:
            seen = set()
        if depth < 0:
            return frozenset(labs)
        for o in v.objs:
            labs |= self._obj_labels(o, st, depth, seen)
        return frozenset(labs)

    def _obj_labels(self, o, st, depth, seen):
        labs = set()
        if isinstance(o, Arr):
            o = o.buf
        if isinstance(o, Bound):
            return self._obj_labels(o.self_, st, depth, seen)
        if isinstance(o, ExtBound):
            return self.deep_labels(o.recv, st, depth, seen)
        if not isinstance(o, Loc) or o in seen:
            return labs
        seen.add(o)
        h = st.heap.get(o)
        if h is None:
            return labs
        for c in children(h):
            labs |= self.deep_labels(c, st, depth - 1, seen)
        return labs

    # ------------------------------------------------------- exceptions
    def add_exc(self, key, st):
        st2 = st.clone()
        cur = self.A.exc.get(key)
        self.A.exc[key] = join_states(cur, st2) if cur is not None else st2

    def may_raise(self, st):
        if self.want_implicit:
            cur = self.A.exc.get("*")
            self.A.exc["*"] = join_states(cur, st.clone())

    def raise_(self, path, st, node=None):
        """definite external exception"""
        self.emit("raise", node, exc=path, st=st)
        self.add_exc(("b", path), st)
        raise Bottom()

    # ------------------------------------------------------- frames/names
    def lookup(self, name, st, node):
        loc = st.frame
        while loc is not None:
            fr = st.heap[loc]
            if name in fr.vars:
                v = fr.vars[name]
                if name in fr.maybe:
                    self.emit("maybe-unbound", node, name=name, st=st)
                return v
            loc = fr.parent
        if name in BUILTIN_NAMES or name == "__import__":
            return self.ext.builtin(name)
        if name in ("__name__", "__file__", "__doc__"):
            return STR
        self.emit("unbound", node, name=name, st=st)
        self.raise_("NameError", st, node)

    def setvar(self, name, v, st):
        fl = st.frame
        fr = st.heap[fl]
        g = dict(fr.globals_)
        if name in g:
            fl = g[name]
            self.emit("outer-write", None, name=name, loc=fl, value=v, st=st)
        fr = st.edit(fl)
        if fr.multi and name in fr.vars:
            fr.vars[name] = join(fr.vars[name], v)
        else:
            fr.vars[name] = v
        if name in fr.maybe:
            fr.maybe = fr.maybe - {name}

    # ------------------------------------------------------- modules
    def load_module(self, name, st):
        if name in self.module_locs and self.module_locs[name] in st.heap:
            return self.module_locs[name]
        m = self.prog.modules.get(name)
        if m is None:
            return None
        if "." in name:
            self.load_module(name.rsplit(".", 1)[0], st)
            if name in self.module_locs and self.module_locs[name] in st.heap:
                return self.module_locs[name]
        fl = Loc(("modframe", name), f"frame:{name}")
        ml = Loc(("module", name), f"module:{name}")
        st.heap[fl] = Frame(None)
        st.heap[ml] = Module(name, fl)
        self.module_locs[name] = ml
        saved = st.frame
        savedA = self.A
        self.A = Acc()
        st.frame = fl
        self.captured.add(fl)
        info = FuncInfoModule(m)
        self.stack.append((info, None))
        try:
            s2 = self.exec_block(m.tree.body, st)
        finally:
            self.stack.pop()
            exc = self.A.exc
            self.A = savedA
        for k, s in exc.items():
            if k != "*":
                self.emit("import-error", m.tree, module=name, exc=k)
        if s2 is None:
            st.frame = saved
            self.emit("import-fails", m.tree, module=name)
            raise Bottom()
        if s2 is not st:
            st.assign(s2)
        st.frame = saved
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            pl = self.module_locs.get(par)
            if pl is not None:
                pf = st.edit(st.heap[pl].frame)
                if leaf not in pf.vars:
                    pf.vars[leaf] = obj(ml)
        return ml

    # ------------------------------------------------------- statements
    def exec_block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.exec_stmt(s, st)
        return st

    def exec_stmt(self, s, st):
        self.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unsupported[type(s).__name__] = (
                self.unsupported.get(type(s).__name__, 0) + 1
            )
            return st
        try:
            return m(s, st)
        except Bottom:
            return None

    def s_Expr(self, s, st):
        self.eval(s.value, st)
        return st

    def s_Pass(self, s, st):
        return st

    def s_Assert(self, s, st):
        t, f = self.branch(s.test, st)
        if f is not None:
            self.A.exc[("b", "AssertionError")] = join_states(
                self.A.exc.get(("b", "AssertionError")), f
            )
        return t

    def s_Global(self, s, st):
        loc = st.frame
        while st.heap[loc].parent is not None:
            loc = st.heap[loc].parent
        fr = st.edit(st.frame)
        fr.globals_ = fr.globals_ | frozenset((n, loc) for n in s.names)
        return st

    def s_Nonlocal(self, s, st):
        fr0 = st.heap[st.frame]
        add = []
        for n in s.names:
            loc = fr0.parent
            while loc is not None and n not in st.heap[loc].vars:
                loc = st.heap[loc].parent
            if loc is not None:
                add.append((n, loc))
        fr = st.edit(st.frame)
        fr.globals_ = fr.globals_ | frozenset(add)
        return st

    def missing(self, top):
        """the environment has no package `top`; "*": nothing undeclared"""
        return top in self.absent or (
            "*" in self.absent and top not in AVAILABLE
            and top != self.prog.package)

    def s_Import(self, s, st):
        for a in s.names:
            top = a.name.split(".")[0]
            if self.missing(top):
                self.raise_("ModuleNotFoundError", st, s)
            if top == self.prog.package:
                loc = self.load_module(a.name, st)
                if a.asname:
                    self.setvar(a.asname, obj(loc) if loc else UNK, st)
                else:
                    self.setvar(top, obj(self.module_locs[top]), st)
            else:
                if self.want_implicit:
                    pass
                if a.asname:
                    self.setvar(a.asname, obj(Ext(canon(a.name))), st)
                else:
                    self.setvar(top, obj(Ext(canon(top))), st)
        return st

    def s_ImportFrom(self, s, st):
        mod = s._mod
        if s.level:
            base = mod.name.split(".")
            if not mod.is_pkg:
                base = base[:-1]
            base = base[: len(base) - (s.level - 1)]
            name = ".".join(base + ([s.module] if s.module else []))
        else:
            name = s.module
        top = name.split(".")[0]
        if self.missing(top):
            self.raise_("ModuleNotFoundError", st, s)
        if top != self.prog.package:
            for a in s.names:
                if a.name == "*":
                    continue
                self.setvar(
                    a.asname or a.name,
                    self.ext.load_ext(canon(f"{name}.{a.name}")),
                    st,
                )
            return st
        ml = self.load_module(name, st)
        if ml is None:
            self.emit("import-missing", s, name=name)
            for a in s.names:
                self.setvar(a.asname or a.name, UNK, st)
            return st
        for a in s.names:
            fr = st.heap[st.heap[ml].frame]
            if a.name == "*":
                for k, v in fr.vars.items():
                    if not k.startswith("_"):
                        self.setvar(k, v, st)
                continue
            if a.name in fr.vars:
                v = fr.vars[a.name]
                if a.name in fr.maybe:
                    self.emit("maybe-unbound", s, name=a.name, st=st)
            else:
                sub = self.load_module(f"{name}.{a.name}", st)
                if sub is None:
                    self.emit("unbound", s, name=f"{name}.{a.name}", st=st)
                    v = UNK
                else:
                    v = obj(sub)
            self.setvar(a.asname or a.name, v, st)
        return st

    def make_func(self, node, st):
        info = node._info
        args = node.args
        defaults = tuple(self.eval(d, st) for d in args.defaults)
        kwd = tuple(
            (p.arg, self.eval(d, st))
            for p, d in zip(args.kwonlyargs, args.kw_defaults)
            if d is not None
        )
        fr = st.frame
        # class bodies are not enclosing scopes
        frame = fr
        o = st.heap[fr]
        if o.tag == "class":
            frame = o.parent
        self.captured.add(frame)
        deco = ()
        loc = self.alloc(
            st, node, Func(info, frame, defaults, kwd, None, deco)
        )
        return loc

    def s_FunctionDef(self, s, st):
        loc = self.make_func(s, st)
        v = obj(loc)
        for d in reversed(s.decorator_list):
            dv = self.eval(d, st)
            o = dv.single()
            if isinstance(o, Ext):
                p = o.path
                if p in (
                    "builtins.property",
                    "builtins.staticmethod",
                    "builtins.classmethod",
                    "abc.abstractmethod",
                    "functools.cached_property",
                ):
                    f = st.edit(loc)
                    f.deco = f.deco + (p.rsplit(".", 1)[1],)
                    continue
                if p in ("functools.wraps", "typing.overload"):
                    continue
                if p in ("functools.lru_cache", "functools.cache"):
                    self.emit("memoised", s, func=loc, st=st)
                    continue
                continue
            if isinstance(o, ExtBound) and o.name in ("setter", "getter"):
                f = st.edit(loc)
                f.deco = f.deco + (o.name,)
                # keep the property getter under the same name
                old = st.heap[st.frame].vars.get(s.name)
                if old is not None:
                    fr = st.edit(st.frame)
                    fr.vars[s.name + "!setter"] = obj(loc)
                    v = old
                continue
            if o is not None:
                v = self.call(dv, Args([v]), d, st)
        self.setvar(s.name, v, st)
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st):
        bases = []
        for b in s.bases:
            bv = self.eval(b, st)
            o = bv.single()
            bases.append(o if o is not None else Ext("unknown"))
        for k in s.keywords:
            self.eval(k.value, st)
        fl = self.alloc(st, s, Frame(st.frame), "classframe")
        st.heap[fl].tag = "class"
        saved = st.frame
        st.frame = fl
        st2 = self.exec_block(s.body, st)
        if st2 is None:
            raise Bottom()
        if st2 is not st:
            st.assign(st2)
        st.frame = saved
        fields = dict(st.heap[fl].vars)
        flavour = None
        for b in bases:
            if isinstance(b, Ext):
                if b.path in ("enum.Enum", "enum.IntEnum", "enum.Flag"):
                    flavour = "enum"
                if b.path == "typing.NamedTuple":
                    flavour = "namedtuple"
            elif isinstance(b, Loc) and st.heap[b].flavour:
                flavour = st.heap[b].flavour
        for d in s.decorator_list:
            dv = self.eval(d, st)
            for o in dv.objs:
                if isinstance(o, Ext) and o.path.startswith(
                    "dataclasses.dataclass"
                ):
                    flavour = "dataclass"
        cl = self.alloc(
            st, s, Class(s, tuple(bases), fields, flavour), "class"
        )
        self.setvar(s.name, obj(cl), st)
        for b in bases:
            if isinstance(b, Loc):
                self.subclasses.setdefault(b, [])
                if cl not in self.subclasses[b]:
                    self.subclasses[b].append(cl)
        # owner for super() and diagnostics
        for k, v in fields.items():
            o = v.single()
            if isinstance(o, Loc) and isinstance(st.heap.get(o), Func):
                f = st.edit(o)
                f.owner = cl
        if flavour == "enum":
            c = st.edit(cl)
            for k, v in list(c.fields.items()):
                o = v.single()
                if isinstance(o, Loc) and isinstance(st.heap.get(o), Func):
                    continue
                if k.startswith("__"):
                    continue
                il = Loc(("enum", s._uid, k), f"{s.name}.{k}")
                st.heap[il] = Inst(
                    cl, {"value": v, "name": const(k), "_value_": v}
                )
                c.fields[k] = obj(il)
        if flavour in ("namedtuple", "dataclass"):
            order = []
            for b in s.body:
                if isinstance(b, ast.AnnAssign) and isinstance(
                    b.target, ast.Name
                ):
                    order.append(b.target.id)
            c = st.edit(cl)
            c.tag = tuple(order)
        return st

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        if st.pc:
            v = v.withlab(st.pc)
        if self.stack:
            self.emit("return", s, value=v, info=self.stack[-1][0], st=st)
        A = self.A
        A.ret = join_states(A.ret, st)
        A.retv = join(A.retv, v)
        A.rets += 1
        if A.vals is not None:
            A.vals.append((st.path, v))
        return None

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st, s)
        return st

    def s_AugAssign(self, s, st):
        t = s.target
        rhs_first = None
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, t)
            rhs = self.eval(s.value, st)
            v = self.ext.inplace(s.op, cur, rhs, st, s)
            self.setvar(t.id, self.pcl(v, st), st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            cur = self.getattr_(o, t.attr, st, t)
            rhs = self.eval(s.value, st)
            v = self.ext.inplace(s.op, cur, rhs, st, s)
            self.setattr_(o, t.attr, self.pcl(v, st), st, s)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            idx = self.eval_index(t.slice, st)
            cur = self.ext.getitem(o, idx, st, t)
            rhs = self.eval(s.value, st)
            v = self.ext.inplace(s.op, cur, rhs, st, s)
            self.ext.setitem(o, idx, self.pcl(v, st), st, s)
        return st

    def pcl(self, v, st):
        return v.withlab(st.pc) if st.pc else v

    def assign(self, t, v, st, s):
        if isinstance(t, ast.Name):
            self.setvar(t.id, self.pcl(v, st), st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.setattr_(o, t.attr, self.pcl(v, st), st, s)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            idx = self.eval_index(t.slice, st)
            self.ext.setitem(o, idx, self.pcl(v, st), st, s)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, t.elts, st, s)
            for e, x in zip(t.elts, vs):
                if isinstance(e, ast.Starred):
                    e = e.value
                self.assign(e, x, st, s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, s)

    def unpack(self, v, elts, st, node):
        """values for the targets of an unpacking assignment"""
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        alts = self.ext.iter_alts(v, st, node)
        outs = [[] for _ in range(n)]
        ok = False
        lab = self.deep_labels(v, st, 1) if not v.objs else v.lab
        for a, (kind, pre, rest, space) in enumerate(alts):
            if star:
                i = star[0]
                after = n - i - 1
                if rest is None:
                    if len(pre) < n - 1:
                        continue
                    ok = True
                    for k in range(i):
                        outs[k].append(pre[k])
                    mid = pre[i: len(pre) - after]
                    outs[i].append(
                        obj(self.alloc(st, elts[i], Seq("list", mid),
                                       ("star", a)))
                    )
                    for k in range(after):
                        outs[n - 1 - k].append(pre[len(pre) - 1 - k])
                else:
                    ok = True
                    allv = list(pre) + [rest]
                    for k in range(i):
                        outs[k].append(pre[k] if k < len(pre) else rest)
                    outs[i].append(
                        obj(
                            self.alloc(
                                st, elts[i],
                                Seq("list", pre[i:] if after == 0 else (),
                                    joinall(allv)),
                                ("star", a),
                            )
                        )
                    )
                    for k in range(after):
                        outs[n - 1 - k].append(rest)
                continue
            if rest is None:
                if len(pre) != n:
                    self.emit("unpack-mismatch", node, want=n, have=len(pre),
                              kind_=kind, st=st)
                    self.add_exc(("b", "ValueError"), st)
                    continue
                ok = True
                for k in range(n):
                    outs[k].append(pre[k])
            else:
                if kind == "arr" and space is not None:
                    self.emit("unpack-rows", node, want=n, space=space, st=st)
                ok = True
                for k in range(n):
                    outs[k].append(pre[k] if k < len(pre) else rest)
        if not ok:
            raise Bottom()
        return [joinall(o, UNK).withlab(v.lab) for o in outs]

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, st)
                idx = self.eval_index(t.slice, st)
                self.ext.delitem(o, idx, st, s)
            elif isinstance(t, ast.Name):
                fr = st.edit(st.frame)
                fr.vars.pop(t.id, None)
                fr.maybe = fr.maybe - {t.id}
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st)
                for x in o.objs:
                    if isinstance(x, Loc) and isinstance(
                        st.heap.get(x), Inst
                    ):
                        self.emit("write", s, loc=x, what="del ." + t.attr,
                                  field=t.attr, value=BOT, st=st)
                        i = st.edit(x)
                        i.fields.pop(t.attr, None)
        return st

    def s_If(self, s, st):
        t, f = self.branch(s.test, st)
        labs = E0
        if t is not None and f is not None:
            labs = self._lastcond
        a = b = None
        base = st.pc
        if t is not None:
            t.pc = base | labs
            a = self.exec_block(s.body, t)
        if f is not None:
            f.pc = base | labs
            b = self.exec_block(s.orelse, f)
        r = join_states(a, b)
        if r is not None:
            # a branch that leaves the function keeps its influence
            r.pc = base if (a is not None and b is not None) else (
                base | (labs if (t is not None and f is not None) else E0)
            )
        return r

    def branch(self, test, st):
        """(state if true, state if false); None where infeasible"""
        v = self.eval(test, st)
        tr = self.truth(v, st)
        self._lastcond = self.cond_labels(v, st)
        self.emit("branch", test, value=v, truth=tr, st=st)
        t = f = None
        if True in tr:
            t = st.clone()
            try:
                self.refine(test, True, t)
            except Bottom:
                t = None
        if False in tr:
            f = st.clone() if True in tr else st
            try:
                self.refine(test, False, f)
            except Bottom:
                f = None
        if t is not None and f is not None and poly.STATE["on"]:
            c = v.f.get("poly") if v.prims == {"bool"} and not v.consts \
                and not v.objs and not v.f.get("fn") else None
            if c is None:
                self.branches = c = getattr(self, "branches", 0) + 1
            t.path = t.path + ((c, True),)
            f.path = f.path + ((c, False),)
        return t, f

    def cond_labels(self, v, st):
        return frozenset(
            l for l in self.deep_labels(v, st, 2) if not str(l).startswith("~")
        )

    def s_While(self, s, st):
        A = self.A
        sb, sc = A.brk, A.cont
        brk = None
        head = st
        out = None
        base = st.pc
        # iterations that are certain are not joined with the others
        ts = self.turns(s, range(
            0 if isinstance(s.test, ast.Constant) else 16))
        try:
            for k, _ in ts:
                A.brk = A.cont = None
                h = head.clone()
                try:
                    t, f = self.branch(s.test, h)
                except Bottom:
                    break
                if f is not None or t is None:
                    break
                nxt = self.exec_block(s.body, t)
                nxt = join_states(nxt, A.cont)
                brk = join_states(brk, A.brk)
                if nxt is None:
                    break
                nxt.pc = base
                if states_equal(head, nxt):
                    break
                head = nxt
        finally:
            ts.close()
            A.brk, A.cont = sb, sc
        self.loop_depth += 1
        try:
            for k in range(12):
                if k >= 2:
                    widen = True
                else:
                    widen = False
                A.brk = A.cont = None
                h = head.clone()
                try:
                    t, f = self.branch(s.test, h)
                except Bottom:
                    out = None
                    break
                out = f
                if t is None:
                    break
                nxt = self.exec_block(s.body, t)
                nxt = join_states(nxt, A.cont)
                brk = join_states(brk, A.brk)
                if nxt is None:
                    break
                nxt.pc = base
                new = self.wjoin(head, nxt, widen)
                if states_equal(head, new):
                    break
                head = new
        finally:
            self.loop_depth -= 1
            A.brk, A.cont = sb, sc
        if out is not None and s.orelse:
            out = self.exec_block(s.orelse, out)
        r = join_states(out, brk)
        if r is not None:
            r.pc = base
        return r

    def wjoin(self, a, b, widen):
        if not widen:
            return join_states(a, b)
        old = D.MAXCONST
        D.MAXCONST = 1
        try:
            r = join_states(a, b)
        finally:
            D.MAXCONST = old
        # intervals that still grow are given up
        return r

    def s_For(self, s, st):
        A = self.A
        it = self.eval(s.iter, st)
        alts = self.ext.iter_alts(it, st, s.iter)
        self.emit("iterate", s, value=it, st=st)
        base = st.pc
        result = None
        allbrk = None
        multi = len(alts) > 1
        for kind, pre, rest, space in alts:
            s0 = st.clone() if multi else st
            r, brk = self._for_one(s, s0, pre, rest, it, space)
            if r is not None and s.orelse:
                r = self.exec_block(s.orelse, r)
            result = join_states(result, r)
            allbrk = join_states(allbrk, brk)
        result = join_states(result, allbrk)
        if result is not None:
            result.pc = base
        return result

    def _grown(self, st, locs, n):
        """lists of `locs` holding exactly `n` elements"""
        out = []
        for l in locs:
            q = st.heap.get(l)
            if isinstance(q, Seq) and q.typ == "list" and q.rest is None \
                    and not q.multi and len(q.prefix) == n:
                out.append(l)
        return out

    def _grows(self, s, st, nxt, elem):
        """empty lists that every turn of a loop appends one element to"""
        A = self.A
        ls = self._grown(nxt, self._grown(st, list(st.heap), 0), 1)
        if not ls or A.brk is not None:
            return []
        h = nxt.clone()
        brk, cont = A.brk, A.cont
        A.brk = A.cont = None
        try:
            self.assign(s.target, elem, h, s)
            h = join_states(self.exec_block(s.body, h), A.cont)
            if h is None or A.brk is not None:
                return []
            return self._grown(h, ls, 2)
        except Bottom:
            return []
        finally:
            A.brk, A.cont = brk, cont

    def _for_one(self, s, st, pre, rest, it, space=None):
        A = self.A
        grown = []
        sb, sc = A.brk, A.cont
        brk = None
        base = st.pc
        try:
            if rest is None:
                cur = st
                it = self.turns(s, pre)
                for k, x in it:
                    A.brk = A.cont = None
                    try:
                        self.assign(s.target, x, cur, s)
                        nxt = self.exec_block(s.body, cur)
                    except Bottom:
                        it.close()
                        return None, brk
                    nxt = join_states(nxt, A.cont)
                    brk = join_states(brk, A.brk)
                    if nxt is None:
                        it.close()
                        return None, brk
                    nxt.pc = base
                    cur = nxt
                return cur, brk
            elem = joinall(list(pre) + [rest])
            head = st
            self.loop_depth += 1
            try:
                for k in range(10):
                    A.brk = A.cont = None
                    h = head.clone()
                    try:
                        self.assign(s.target, elem, h, s)
                    except Bottom:
                        return (head if not pre else None), brk
                    nxt = self.exec_block(s.body, h)
                    nxt = join_states(nxt, A.cont)
                    brk = join_states(brk, A.brk)
                    if nxt is None:
                        break
                    nxt.pc = base
                    if not k and space is not None and not pre:
                        grown = self._grows(s, head, nxt, elem)
                    new = self.wjoin(head, nxt, k >= 2)
                    if states_equal(head, new):
                        break
                    head = new
                    # later iterations see what earlier ones left behind
                    alts = self.ext.iter_alts(it, head, s.iter)
                    es = [
                        joinall(list(p) + ([r] if r is not None else []))
                        for _, p, r, _ in alts
                    ]
                    elem = joinall([elem] + es)
            finally:
                self.loop_depth -= 1
            if brk is None:
                for l in grown:
                    q = head.heap.get(l)
                    if isinstance(q, Seq) and q.rest is not None and \
                            not q.prefix and not q.multi:
                        head.edit(l).space = space
            return head, brk
        finally:
            A.brk, A.cont = sb, sc

    def s_Break(self, s, st):
        self.A.brk = join_states(self.A.brk, st)
        return None

    def s_Continue(self, s, st):
        self.A.cont = join_states(self.A.cont, st)
        return None

    def s_Raise(self, s, st):
        if s.exc is None:
            keys = self.cur_exc[-1] if self.cur_exc else ["*"]
            for k in keys:
                self.add_exc(k, st)
            self.emit("raise", s, exc=keys, st=st)
            return None
        v = self.eval(s.exc, st)
        if s.cause is not None:
            self.eval(s.cause, st)
        n = 0
        for o in v.objs:
            k = self.exc_key(o, st)
            self.emit("raise", s, exc=k, st=st)
            self.add_exc(k, st)
            n += 1
        if not n:
            self.emit("raise", s, exc="*", st=st)
            self.add_exc("*", st)
        return None

    def exc_key(self, o, st):
        if isinstance(o, ExcInst):
            return ("b", o.path)
        if isinstance(o, Ext):
            return ("b", o.path.replace("builtins.", ""))
        if isinstance(o, Loc):
            h = st.heap.get(o)
            if isinstance(h, Inst):
                return ("c", h.cls)
            if isinstance(h, Class):
                return ("c", o)
        return "*"

    def exc_matches(self, key, tv, st):
        """{True, False} subset: does exception `key` match handler type"""
        if key == "*":
            for o in tv.objs:
                if isinstance(o, Ext) and o.path in (
                    "builtins.Exception",
                    "builtins.BaseException",
                ):
                    return {True}
            return {True, False}
        kinds = self.flatten_types(tv, st)
        if not kinds:
            return {True, False}
        for t in kinds:
            if isinstance(t, Ext):
                name = t.path.replace("builtins.", "")
                for anc in self.exc_ancestors(key, st):
                    if anc == ("b", name):
                        return {True}
            elif isinstance(t, Loc):
                if ("c", t) in self.exc_ancestors(key, st):
                    return {True}
        return {False}

    def exc_ancestors(self, key, st):
        out = [key]
        if key[0] == "b":
            c = getattr(_b, key[1].split(".")[-1], None)
            if isinstance(c, type):
                out += [("b", k.__name__) for k in c.__mro__]
            else:
                out += [("b", "Exception")]
        else:
            for c in self.mro(key[1], st):
                if isinstance(c, Ext):
                    out += self.exc_ancestors(
                        ("b", c.path.replace("builtins.", "")), st
                    )
                else:
                    out.append(("c", c))
        return out

    def flatten_types(self, tv, st):
        out = []
        for o in tv.objs:
            if isinstance(o, Ext):
                out.append(o)
            elif isinstance(o, Loc):
                h = st.heap.get(o)
                if isinstance(h, Seq):
                    out += self.flatten_types(h.elem(), st)
                elif isinstance(h, Class):
                    out.append(o)
        return out

    def s_Try(self, s, st):
        outer = self.A
        has_fin = bool(s.finalbody)
        A = Acc()
        A.yields, A.yrest = outer.yields, outer.yrest
        self.A = A
        self.want_implicit += 1
        # an exception may strike before the first statement completes
        try:
            nxt = self.exec_block(s.body, st.clone())
        finally:
            self.want_implicit -= 1
            self.A = outer
        outer.yrest = A.yrest
        if nxt is not None and s.orelse:
            B = Acc()
            B.yields, B.yrest = outer.yields, outer.yrest
            self.A = B
            try:
                nxt = self.exec_block(s.orelse, nxt)
            finally:
                self.A = outer
            outer.yrest = B.yrest
            self.merge_acc(A, B, exc_into=None)
            pending = dict(B.exc)
        else:
            pending = {}
        remaining = {}
        results = nxt
        if s.handlers:
            left = dict(A.exc)
            if self.ext.never_raises(s.body):
                left = {}
            C = Acc()
            C.yields, C.yrest = outer.yields, outer.yrest
            for h in s.handlers:
                entry = None
                keys = []
                nleft = {}
                for k, es in left.items():
                    if h.type is None:
                        m = {True}
                    else:
                        e2 = es.clone()
                        try:
                            tv = self.eval(h.type, e2)
                        except Bottom:
                            tv = UNK
                        m = self.exc_matches(k, tv, e2)
                    if True in m:
                        entry = join_states(entry, es.clone())
                        keys.append(k)
                    if False in m:
                        nleft[k] = es
                left = nleft
                if entry is None:
                    continue
                entry.frame = st.frame
                entry.pc = st.pc
                self.A = C
                self.cur_exc.append(keys)
                try:
                    if h.name:
                        ev = BOT
                        for k in keys:
                            if k != "*" and k[0] == "b":
                                ev = join(ev, obj(ExcInst(k[1])))
                            else:
                                ev = join(ev, UNK)
                        self.setvar(h.name, ev, entry)
                    r = self.exec_block(h.body, entry)
                finally:
                    self.cur_exc.pop()
                    self.A = outer
                results = join_states(results, r)
            outer.yrest = C.yrest
            self.merge_acc(A, C, exc_into=None)
            for k, e in list(left.items()) + list(C.exc.items()) + list(
                pending.items()
            ):
                remaining[k] = join_states(remaining.get(k), e)
        else:
            remaining = dict(A.exc)
            for k, e in pending.items():
                remaining[k] = join_states(remaining.get(k), e)
        A.exc = remaining
        if has_fin:
            return self.finish(
                A, results, outer, lambda x: self.exec_block(s.finalbody, x)
            )
        self.merge_acc(outer, A)
        return results

    s_TryStar = s_Try

    def merge_acc(self, dst, src, exc_into="exc"):
        dst.ret = join_states(dst.ret, src.ret)
        dst.retv = join(dst.retv, src.retv)
        dst.rets += src.rets
        dst.vals = dst.vals + src.vals if None not in (
            dst.vals, src.vals) else None
        dst.brk = join_states(dst.brk, src.brk)
        dst.cont = join_states(dst.cont, src.cont)
        if exc_into:
            for k, e in src.exc.items():
                dst.exc[k] = join_states(dst.exc.get(k), e)

    def finish(self, A, nxt, outer, fin):
        """run the exit action `fin` on every way out recorded in A"""
        self.A = outer
        for k, e in A.exc.items():
            e2 = e.clone()
            r = fin(e2)
            if r is not None:
                outer.exc[k] = join_states(outer.exc.get(k), r)
        if A.ret is not None:
            r = fin(A.ret.clone())
            if r is not None:
                outer.ret = join_states(outer.ret, r)
                outer.retv = join(outer.retv, A.retv)
                outer.rets += A.rets
                outer.vals = outer.vals + A.vals if None not in (
                    outer.vals, A.vals) else None
        if A.brk is not None:
            outer.brk = join_states(outer.brk, fin(A.brk.clone()))
        if A.cont is not None:
            outer.cont = join_states(outer.cont, fin(A.cont.clone()))
        if nxt is not None:
            return fin(nxt)
        return None

    def s_With(self, s, st):
        return self._with(list(s.items), s, st)

    def _with(self, items, s, st):
        if not items:
            return self.exec_block(s.body, st)
        it = items[0]
        v = self.eval(it.context_expr, st)
        enter, exit_ = self.ext.enter_exit(v, st, it.context_expr)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, enter, st, s)
        outer = self.A
        A = Acc()
        A.yields, A.yrest = outer.yields, outer.yrest
        self.A = A
        self.want_implicit += 1
        try:
            nxt = self._with(items[1:], s, st)
        except Bottom:
            nxt = None
        finally:
            self.want_implicit -= 1
            self.A = outer
        outer.yrest = A.yrest
        suppress = self.ext.suppressed(v, st)
        if suppress is not None:
            for k in list(A.exc):
                m = self.exc_matches(k, suppress, st)
                if True in m:
                    nxt = join_states(nxt, A.exc[k])
                    if False not in m:
                        del A.exc[k]
            if nxt is not None:
                nxt.frame = st.frame

        def fin(x):
            exit_(x)
            return x

        return self.finish(A, nxt, outer, fin)

    def s_Match(self, s, st):
        # conservative: every case may be taken
        self.eval(s.subject, st)
        out = st.clone()
        for c in s.cases:
            x = st.clone()
            for n in ast.walk(c.pattern):
                if isinstance(n, ast.MatchAs) and n.name:
                    self.setvar(n.name, UNK, x)
            out = join_states(out, self.exec_block(c.body, x))
        return out

    # ------------------------------------------------------- expressions
    def eval(self, node, st):
        self.tick()
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            self.unsupported[type(node).__name__] = (
                self.unsupported.get(type(node).__name__, 0) + 1
            )
            return UNK
        prev = self.node
        self.node = node
        try:
            return m(node, st)
        finally:
            self.node = prev

    def e_Constant(self, n, st):
        if n.value is Ellipsis:
            return const("...")
        if isinstance(n.value, complex):
            return prim("unk")
        return const(n.value)

    def e_Name(self, n, st):
        return self.lookup(n.id, st, n)

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        self.setvar(n.target.id, v, st)
        return v

    def e_Attribute(self, n, st):
        o = self.eval(n.value, st)
        return self.getattr_(o, n.attr, st, n)

    def e_Starred(self, n, st):
        return self.eval(n.value, st)

    def _elts(self, elts, st, node):
        pre = []
        rest = None
        space = None
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st)
                for kind, p, r, sp in self.ext.iter_alts(v, st, e):
                    if rest is None:
                        pre.extend(p)
                    else:
                        rest = joinall([rest] + list(p))
                    if r is not None:
                        rest = r if rest is None else join(rest, r)
                        space = sp
                    break
            else:
                v = self.eval(e, st)
                if rest is None:
                    pre.append(v)
                else:
                    rest = join(rest, v)
                    space = None
        return pre, rest, space

    def e_Tuple(self, n, st):
        pre, rest, sp = self._elts(n.elts, st, n)
        return obj(self.alloc(st, n, Seq("tuple", pre, rest)))

    def e_List(self, n, st):
        pre, rest, sp = self._elts(n.elts, st, n)
        q = Seq("list", pre, rest)
        if rest is not None and not pre:
            q.space = sp
        elif rest is not None:
            q.extra = ("restspace", sp)
        return obj(self.alloc(st, n, q))

    def e_Set(self, n, st):
        pre, rest, sp = self._elts(n.elts, st, n)
        return obj(self.alloc(st, n, Seq("set", pre, rest)))

    def e_Dict(self, n, st):
        d = Dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.eval(v, st)
                for o in x.objs:
                    h = st.heap.get(o) if isinstance(o, Loc) else None
                    if isinstance(h, Dict):
                        d = d.join(h) if False else self.ext.dict_merge(d, h)
                    else:
                        d.rk = STR
                        d.rv = join(d.rv or BOT, UNK)
                continue
            kv = self.eval(k, st)
            vv = self.eval(v, st)
            self.ext.dict_put(d, kv, vv, st=st)
        return obj(self.alloc(st, n, d))

    def e_JoinedStr(self, n, st):
        lab = set()
        parts = []
        exact = True
        text = None
        vals = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                x = self.eval(v.value, st)
                vals.append(x if v.format_spec is None else UNK)
                lab |= self.deep_labels(x, st, 2)
                if x.is_const() and v.format_spec is None:
                    parts.append(str(x.const()))
                else:
                    exact = False
                    self.ext.stringify(x, st, n)
                    spec = const("")
                    if v.format_spec is not None:
                        spec = self.eval(v.format_spec, st)
                    if len(n.values) == 1:
                        text = self.ext.formatted(
                            x, spec.const() if spec.is_const() else None,
                            st)
            else:
                parts.append(str(v.value))
                vals.append(const(str(v.value)))
        if exact:
            return const("".join(parts), frozenset(lab))
        if text is not None:
            return text.withlab(frozenset(lab))
        return prim("str", lab=frozenset(lab), **self.ext.pcat(vals))

    def e_FormattedValue(self, n, st):
        return self.e_JoinedStr(ast.JoinedStr(values=[n]), st)

    def e_Lambda(self, n, st):
        return obj(self.make_func(n, st))

    def e_IfExp(self, n, st):
        t, f = self.branch(n.test, st)
        labs = self._lastcond if t is not None and f is not None else E0
        vt = vf = None
        base = st.pc
        if t is not None:
            try:
                vt = self.eval(n.body, t)
            except Bottom:
                t = None
        if f is not None:
            try:
                vf = self.eval(n.orelse, f)
            except Bottom:
                f = None
        r = join_states(t, f)
        if r is None:
            raise Bottom()
        v = joinall([x for x in (vt, vf) if x is not None])
        if t is not None and f is not None and not v.objs:
            gate = split(t.path, f.path)[1]
            if gate is not None:
                v = poly.gated(v, vt, vf, *gate)
        st.assign(r)
        st.pc = base
        return v.withlab(labs)

    def returned(self, vals):
        """the value of several returns; None: not separated by conditions"""
        if len(vals) == 1:
            return vals[0][1]
        if len(vals) > 40 or not all(p for p, _ in vals):
            return None
        first = vals[0][0][0]
        if all(p[0] == first for p, _ in vals):
            return self.returned([(p[1:], v) for p, v in vals])
        if not isinstance(first[0], tuple) or any(
                p[0][0] != first[0] for p, _ in vals):
            return None
        t, f = [self.returned([(p[1:], v) for p, v in vals if p[0][1] is b])
                for b in (True, False)]
        if t is None or f is None:
            return None
        return poly.gated(join(t, f), t, f, first[0], True)

    def e_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)
        vals = []
        cur = st
        outs = None
        cond_lab = E0
        forms = []
        for i, e in enumerate(n.values):
            v = self.eval(e, cur)
            forms.append(v.f.get("poly") if v.prims == {"bool"} and not
                         v.consts and not v.objs and not v.f.get("fn")
                         else None)
            last = i == len(n.values) - 1
            if v.is_const() and v.const() is is_and:
                forms.pop()
            if last:
                vals.append(v.withlab(cond_lab))
                outs = join_states(outs, cur)
                break
            tr = self.truth(v, cur)
            stop = (not is_and) if True else None
            stop_val = not is_and
            if stop_val in tr:
                vals.append(self.with_truth(v, stop_val, cur))
                if len(tr) == 1:
                    outs = join_states(outs, cur)
                    break
                s2 = cur.clone()
                try:
                    self.refine(e, stop_val, s2)
                    outs = join_states(outs, s2)
                except Bottom:
                    pass
            cond_lab = cond_lab | self.cond_labels(v, cur)
            cur = cur.clone() if outs is not None else cur
            try:
                self.refine(e, is_and, cur)
            except Bottom:
                break
        if outs is None:
            raise Bottom()
        if outs is not st:
            st.assign(outs)
        if last and forms and None not in forms:
            # every operand is a truth of known form
            acc = forms.pop()
            while forms and acc is not None:
                p = forms.pop()
                acc = poly.ite(p, acc, ()) if is_and else poly.ite(
                    p, (((), 1.0),), acc)
            if acc is not None:
                return V(E0, frozenset(("bool",)), E0,
                         joinall(vals).lab, {"poly": acc})
        return joinall(vals)

    def with_truth(self, v, truth, st):
        """part of v that has the given truth value"""
        cs = frozenset(c for c in v.consts if bool(c.v) == truth)
        prims = v.prims
        if not truth:
            prims = frozenset(p for p in prims if p != "none" or True)
        objs = v.objs
        if "bool" in prims and not v.objs and len(prims) == 1:
            return V(E0, E0, cs | {Const(truth)}, v.lab, v.f)
        return V(objs, prims, cs, v.lab, v.f)

    def e_UnaryOp(self, n, st):
        v = self.eval(n.operand, st)
        if isinstance(n.op, ast.Not):
            tr = self.truth(v, st)
            lab = self.deep_labels(v, st, 1)
            if len(tr) == 1:
                return const(not next(iter(tr)), lab)
            z = v.f.get("anyzero")
            r = prim("bool", lab=lab)
            if "poly" in v.f and v.prims == {"bool"} and not v.consts \
                    and not v.objs and not v.f.get("fn"):
                r = self.ext.negated(v).withlab(lab)
            if z is not None:
                r = r.withf(nonezero=z)
            z = v.f.get("nonezero")
            if z is not None:
                r = r.withf(anyzero=z)
            return r
        return self.ext.unary(n.op, v, st, n)

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        return self.ext.binop(n.op, a, b, st, n)

    def e_Compare(self, n, st):
        left = self.eval(n.left, st)
        res = None
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c, st)
            r = self.ext.compare(op, left, right, st, n)
            if res is None:
                res = r
            else:
                t1, t2 = self.truth(res, st), self.truth(r, st)
                if t1 == {False} or t2 == {False}:
                    res = const(False, res.lab | r.lab)
                elif t1 == {True}:
                    res = r.withlab(res.lab)
                elif t2 == {True}:
                    res = res.withlab(r.lab)
                else:
                    f = self.ext.connected(ast.BitAnd, res, r)
                    res = V(E0, frozenset(("bool",)), E0, res.lab | r.lab, f)
            left = right
        return res

    def eval_index(self, node, st):
        return self.eval(node, st)

    def e_Slice(self, n, st):
        parts = []
        for x in (n.lower, n.upper, n.step):
            parts.append(self.eval(x, st) if x is not None else NONE)
        return obj(self.alloc(st, n, Seq("slice", parts)))

    def e_Subscript(self, n, st):
        o = self.eval(n.value, st)
        idx = self.eval_index(n.slice, st)
        return self.ext.getitem(o, idx, st, n)

    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            return self.make_super(n, st)
        f = self.eval(n.func, st)
        args = self.eval_args(n, st)
        return self.call(f, args, n, st)

    def eval_args(self, n, st):
        A = Args()
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                alts = self.ext.iter_alts(v, st, a)
                if len(alts) == 1 and alts[0][2] is None and A.rest is None:
                    A.pos.extend(alts[0][1])
                else:
                    for kind, p, r, sp in alts:
                        es = list(p) + ([r] if r is not None else [])
                        if es:
                            e = joinall(es)
                            A.rest = e if A.rest is None else join(A.rest, e)
                    if len(alts) == 1 and not alts[0][1] and not A.pos \
                            and len(n.args) == 1:
                        A.restsp = alts[0][3]
                    if A.rest is None:
                        A.rest = UNK
            else:
                v = self.eval(a, st)
                if A.rest is not None:
                    A.rest = join(A.rest, v)
                else:
                    A.pos.append(v)
        for k in n.keywords:
            v = self.eval(k.value, st)
            if k.arg is not None:
                A.kw[k.arg] = v
                continue
            for o in v.objs:
                h = st.heap.get(o) if isinstance(o, Loc) else None
                if isinstance(h, Dict):
                    for c, x in h.items.items():
                        if isinstance(c.v, str):
                            A.kw[c.v] = x
                            if c in h.maybe:
                                A.kwrest = join(A.kwrest or BOT, x)
                    if h.rv is not None:
                        A.kwrest = join(A.kwrest or BOT, h.rv)
                else:
                    A.kwrest = join(A.kwrest or BOT, UNK)
            if v.prims:
                A.kwrest = join(A.kwrest or BOT, UNK)
        return A

    def make_super(self, n, st):
        # innermost function with an owner class
        for info, call in reversed(self.stack):
            break
        fr = st.heap[st.frame]
        # find the class owning the current function
        owner = None
        loc = st.frame
        while loc is not None and owner is None:
            f = st.heap[loc]
            if isinstance(f.tag, tuple) and f.tag and f.tag[0] == "fn":
                owner = f.tag[1]
                selfname = f.tag[2]
                break
            loc = f.parent
        if owner is None:
            return UNK
        sv = st.heap[loc].vars.get(selfname, UNK)
        outs = []
        for o in sv.objs:
            outs.append(obj(Super(owner, o)))
        return joinall(outs, UNK)

    def e_ListComp(self, n, st):
        return self.comp(n, st, "list")

    def e_SetComp(self, n, st):
        return self.comp(n, st, "set")

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, "iter")

    def e_DictComp(self, n, st):
        return self.comp(n, st, "dict")

    def comp(self, n, st, kind):
        fl = self.alloc(st, n, Frame(st.frame), "compframe")
        st.heap[fl] = Frame(
            st.frame if st.heap[st.frame].tag != "class" else
            st.heap[st.frame].parent
        )
        saved = st.frame
        st.heap[fl].parent = saved
        st.frame = fl
        pre = []
        rests = []
        flags = {"exact": True, "space": None, "n": 0, "filtered": False,
                 "lab": E0}

        def leaf(s, inexact):
            if kind == "dict":
                k = self.eval(n.key, s)
                v = self.eval(n.value, s)
                item = (k, v)
            else:
                item = self.eval(n.elt, s)
            (rests if inexact else pre).append(item)

        def gen(i, s, inexact):
            """returns the state after the generator"""
            if i == len(n.generators):
                leaf(s, inexact)
                return s
            g = n.generators[i]
            it = self.eval(g.iter, s)
            alts = self.ext.iter_alts(it, s, g.iter)
            out = None
            for ak, p, r, sp in alts:
                s1 = s.clone() if len(alts) > 1 else s
                if i == 0 and len(alts) == 1:
                    flags["space"] = sp
                    flags["isdictspace"] = False
                if len(alts) > 1:
                    inexact2 = True
                else:
                    inexact2 = inexact
                if r is None and len(p) <= (256 if self.grids else 64):
                    ts = self.turns(g.iter, p)
                    try:
                        for k, x in ts:
                            s1 = body(i, s1, x, inexact2)
                            if s1 is None:
                                return None
                    finally:
                        ts.close()
                else:
                    flags["exact"] = False
                    x = joinall(list(p) + ([r] if r is not None else []))
                    self.loop_depth += 1
                    try:
                        for _ in range(2):
                            s2 = body(i, s1.clone(), x, True)
                            if s2 is None:
                                break
                            new = join_states(s1, s2)
                            if states_equal(new, s1):
                                break
                            s1 = new
                    finally:
                        self.loop_depth -= 1
                out = join_states(out, s1)
            return out

        def body(i, s, x, inexact):
            g = n.generators[i]
            try:
                self.assign(g.target, x, s, g.target)
            except Bottom:
                return s if inexact else None
            skipped = None
            for cond in g.ifs:
                t, f = self.branch(cond, s)
                if f is not None:
                    skipped = join_states(skipped, f)
                    flags["filtered"] = True
                    if t is not None:
                        flags["lab"] = flags["lab"] | self._lastcond
                if t is None:
                    return skipped
                if f is not None:
                    inexact = True
                s = t
            try:
                r = gen(i + 1, s, inexact)
            except Bottom:
                return skipped
            return join_states(r, skipped)

        try:
            end = gen(0, st, False)
        except Bottom:
            st.frame = saved
            raise
        if end is None:
            st.frame = saved
            raise Bottom()
        if end is not st:
            st.assign(end)
        st.frame = saved
        if fl not in self.captured:
            st.heap.pop(fl, None)
        space = flags["space"] if len(n.generators) == 1 else None
        if flags["filtered"] and space is not None:
            space = ("flt", space, self.site(n)) if rests or not \
                flags["exact"] else None
        if kind == "dict":
            d = Dict()
            for k, v in pre:
                self.ext.dict_put(d, k, v, st=st)
            for k, v in rests:
                if k.is_const() and not isinstance(k.const(), (int, float)):
                    if Const(k.const()) not in d.items:
                        d.maybe = d.maybe | {Const(k.const())}
                    self.ext.dict_put(d, k, v, weak=True, st=st)
                else:
                    d.rk = join(d.rk or BOT, k)
                    d.rv = join(d.rv or BOT, v)
            d.space = space
            src = self.ext.comp_keyspace(n, st, flags["filtered"])
            d.ks = src
            return obj(self.alloc(st, n, d), lab=flags["lab"])
        if rests:
            q = Seq(kind, pre, joinall(rests).withlab(flags["lab"]), space)
        elif flags["filtered"] and not flags["exact"]:
            q = Seq(kind, pre, BOT, space)
        elif space is not None and not pre and not rests:
            q = Seq(kind, (), BOT, space)
        else:
            q = Seq(kind, pre)
            if space is not None:
                q.space = space
        return obj(self.alloc(st, n, q), lab=flags["lab"])

    def e_Yield(self, n, st):
        v = self.eval(n.value, st) if n.value is not None else NONE
        if self.loop_depth > self._gen_depth():
            self.A.yrest = v if self.A.yrest is None else join(
                self.A.yrest, v
            )
        else:
            self.A.yields.append(v)
        return NONE

    def _gen_depth(self):
        return self._gdepth[-1] if getattr(self, "_gdepth", None) else 0

    def e_YieldFrom(self, n, st):
        v = self.eval(n.value, st)
        for kind, p, r, sp in self.ext.iter_alts(v, st, n):
            if r is None and self.loop_depth <= self._gen_depth():
                self.A.yields.extend(p)
            else:
                es = list(p) + ([r] if r is not None else [])
                x = joinall(es, UNK)
                self.A.yrest = x if self.A.yrest is None else join(
                    self.A.yrest, x
                )
        return NONE

    def e_Await(self, n, st):
        return self.eval(n.value, st)

    # ------------------------------------------------------- attributes
    def mro(self, cls, st):
        out = []

        def rec(c):
            if c in out:
                out.remove(c)
            out.append(c)
            if isinstance(c, Loc):
                for b in st.heap[c].bases:
                    rec(b)

        rec(cls)
        return out

    def class_attr(self, cls, name, st, skip_until=None):
        ms = self.mro(cls, st)
        if skip_until is not None:
            try:
                ms = ms[ms.index(skip_until) + 1:]
            except ValueError:
                ms = ms[1:]
        for c in ms:
            if isinstance(c, Loc):
                f = st.heap[c].fields
                if name in f:
                    return f[name], c
        return None, None

    def ext_bases(self, cls, st):
        return [c for c in self.mro(cls, st) if isinstance(c, Ext)]

    KNOWN_BASES = {
        "abc.ABC", "enum.Enum", "builtins.object", "builtins.Exception",
        "builtins.Warning", "typing.NamedTuple", "builtins.ValueError",
        "typing.Generic", "typing.Protocol",
    }

    def ext_bases_unknown(self, cls, st):
        return cls is None or any(
            b.path not in self.KNOWN_BASES
            for b in self.ext_bases(cls, st)
        )

    def getattr_(self, v, name, st, node):
        outs = []
        lab = v.lab
        if len(v.objs) > 1 and any(
                isinstance(o, Arr) or isinstance(o, Loc) and isinstance(
                    st.heap.get(o), (Inst, Opaque)) for o in v.objs):
            outs += self.forks(
                v.objs, st,
                lambda o, s: self.getattr_obj(o, name, s, node))
        else:
            for o in v.objs:
                r = self.getattr_obj(o, name, st, node)
                if r is not None:
                    outs.append(r)
        if v.prims or v.consts:
            rest = V(E0, v.prims, v.consts, v.lab, v.f)
            if v.prims == {"unk"} or (v.prims - {"none"} == {"unk"}):
                outs.append(
                    V(frozenset((ExtBound(rest, name),)), lab=v.lab)
                )
            else:
                known = rest
                if v.only_consts() and all(c.v is None for c in v.consts):
                    self.emit("attr-on-none", node, name=name, st=st)
                    if not outs:
                        self.add_exc(("b", "AttributeError"), st)
                        raise Bottom()
                else:
                    outs.append(self.ext.prim_attr(known, name, st, node))
        if not outs:
            raise Bottom()
        return joinall(outs).withlab(lab)

    def forks(self, alts, st, fn):
        """results of fn for every alternative, each in its own state, so
        that what one of them allocates is not overwritten by the next"""
        outs = []
        states = None
        bottom = False
        for o in alts:
            s = st.clone()
            try:
                r = fn(o, s)
            except Bottom:
                bottom = True
                continue
            if r is None:
                bottom = True
                continue
            outs.append(r)
            states = join_states(states, s)
        if states is not None:
            st.assign(states)
        return outs

    def getattr_obj(self, o, name, st, node):
        if isinstance(o, Loc):
            h = st.heap.get(o)
            if isinstance(h, Inst):
                return self.inst_attr(o, h, name, st, node)
            if isinstance(h, Class):
                return self.cls_attr(o, h, name, st, node)
            if isinstance(h, Module):
                fr = st.heap[h.frame]
                if name in fr.vars:
                    if name in fr.maybe:
                        self.emit("maybe-unbound", node, name=name, st=st)
                    return fr.vars[name]
                sub = self.prog.modules.get(f"{h.name}.{name}")
                if sub is not None:
                    l = self.module_locs.get(sub.name)
                    if l is not None and l in st.heap:
                        return obj(l)
                self.emit("unbound", node, name=f"{h.name}.{name}", st=st)
                return UNK
            if isinstance(h, Func):
                if name in ("__name__", "__qualname__"):
                    return const(getattr(h.info.node, "name", "<lambda>"))
                return UNK
            if isinstance(h, Opaque):
                return h.contract.getattr(self, o, h, name, st, node)
            return self.ext.heap_attr(o, h, name, st, node)
        if isinstance(o, Arr):
            return self.ext.arr_attr(o, name, st, node)
        if isinstance(o, Ext):
            return self.ext.load_ext(f"{o.path}.{name}")
        if isinstance(o, Super):
            val, c = self.class_attr(
                self.self_class(o.self_, st), name, st, skip_until=o.cls
            )
            if val is None:
                return V(
                    frozenset((ExtBound(obj(o), name),))
                )
            return self.bind(val, o.self_, st, node, c)
        if isinstance(o, ExtBound):
            if name == "__name__":
                return STR
            return UNK
        if isinstance(o, Bound):
            if name in ("__name__",):
                return STR
            if name == "__func__":
                return obj(o.func)
            if name == "__self__":
                return obj(o.self_)
            return UNK
        return UNK

    def self_class(self, o, st):
        if isinstance(o, Loc):
            h = st.heap.get(o)
            if isinstance(h, Inst):
                return h.cls
            if isinstance(h, Class):
                return o
            if isinstance(h, Opaque):
                return h.cls
        return None

    def bind(self, val, self_, st, node, cls):
        outs = []
        for x in val.objs:
            h = st.heap.get(x) if isinstance(x, Loc) else None
            if isinstance(h, Func):
                d = h.deco
                is_cls = isinstance(st.heap.get(self_), Class) if isinstance(
                    self_, Loc) else False
                if "property" in d or "cached_property" in d:
                    if is_cls:
                        outs.append(UNK)
                    else:
                        outs.append(
                            self.call_func(
                                x, Args([obj(self_)]), node, st
                            )
                        )
                elif "staticmethod" in d:
                    outs.append(obj(x))
                elif "classmethod" in d:
                    c = self_ if is_cls else self.self_class(self_, st)
                    outs.append(obj(Bound(x, c)))
                elif is_cls:
                    outs.append(obj(x))
                else:
                    outs.append(obj(Bound(x, self_)))
            else:
                outs.append(obj(x))
        if val.prims or val.consts:
            outs.append(V(E0, val.prims, val.consts, val.lab, val.f))
        return joinall(outs, UNK).withlab(val.lab)

    def inst_attr(self, o, h, name, st, node):
        # data descriptors (properties) win over instance fields
        val, c = self.class_attr(h.cls, name, st)
        if val is not None:
            x = val.single()
            fh = st.heap.get(x) if isinstance(x, Loc) else None
            if isinstance(fh, Func) and "property" in fh.deco:
                self.emit("attr-read", node, loc=o, name=name, st=st)
                return self.bind(val, o, st, node, c)
        if name in h.fields:
            self.emit("field-read", node, loc=o, name=name, st=st)
            r = h.fields[name]
            if name in h.maybe and val is not None:
                r = join(r, self.bind(val, o, st, node, c))
            return r
        if val is not None:
            return self.bind(val, o, st, node, c)
        if name == "__class__":
            return obj(h.cls)
        if name == "__dict__":
            return UNK
        for b in self.ext_bases(h.cls, st):
            if b.path not in (
                "abc.ABC", "enum.Enum", "builtins.object",
            ):
                return V(
                    frozenset((ExtBound(obj(o), name),))
                )
        if name.startswith("__"):
            return V(frozenset((ExtBound(obj(o), name),)))
        self.emit("no-attr", node, loc=o, name=name, cls=h.cls, st=st)
        self.add_exc(("b", "AttributeError"), st)
        return None

    def cls_attr(self, o, h, name, st, node):
        val, c = self.class_attr(o, name, st)
        if val is not None:
            return self.bind(val, o, st, node, c)
        if name in ("__name__", "__qualname__"):
            return const(h.info.name)
        if name == "__subclasses__":
            return V(frozenset((ExtBound(obj(o), name),)))
        if name == "__mro__":
            return UNK
        if name == "_fields" and h.flavour == "namedtuple" \
                and isinstance(h.tag, tuple):
            return self.ext.seq(st, node, "tuple",
                                tuple(const(x) for x in h.tag))
        return V(frozenset((ExtBound(obj(o), name),)))

    def setattr_(self, v, name, val, st, node):
        many = len(v.objs) > 1
        for o in v.objs:
            h = st.heap.get(o) if isinstance(o, Loc) else None
            if isinstance(h, Inst):
                # property setter?
                sv, c = self.class_attr(h.cls, name + "!setter", st)
                if sv is not None:
                    self.call(
                        self.bind(sv, o, st, node, c), Args([val]), node, st
                    )
                    continue
                self.emit("write", node, loc=o, what="." + name, field=name,
                          value=val, st=st, old=h.fields.get(name))
                i = st.edit(o)
                if (many or i.multi) and name in i.fields:
                    i.fields[name] = join(i.fields[name], val)
                else:
                    i.fields[name] = val
                    i.maybe = i.maybe - {name}
            elif isinstance(h, Class):
                self.emit("write", node, loc=o, what="." + name, field=name,
                          value=val, st=st, old=h.fields.get(name))
                i = st.edit(o)
                i.fields[name] = (
                    join(i.fields[name], val) if name in i.fields else val
                )
            elif isinstance(h, Module):
                self.emit("write", node, loc=h.frame, what="." + name,
                          field=name, value=val, st=st, old=None)
                fr = st.edit(h.frame)
                fr.vars[name] = val
            elif isinstance(h, Opaque):
                h.contract.setattr(self, o, h, name, val, st, node)
            elif isinstance(h, Func):
                self.emit("write", node, loc=o, what="." + name, field=name,
                          value=val, st=st, old=None)
            elif isinstance(o, Arr):
                self.emit("write", node, loc=o.buf, what="." + name,
                          field=name, value=val, st=st, old=None)
            elif isinstance(o, Loc):
                self.emit("write", node, loc=o, what="." + name, field=name,
                          value=val, st=st, old=None)

    # ------------------------------------------------------- calls
    def call(self, f, args, node, st):
        """call every alternative of the callee; join results"""
        targets = list(f.objs)
        outs = []
        states = []
        unk = bool(f.prims) or bool(f.consts)
        n = len(targets) + (1 if unk else 0)
        if n == 0:
            raise Bottom()
        for t in targets:
            s = st if n == 1 else st.clone()
            try:
                r = self.call_obj(t, args, node, s, f.lab, n == 1)
            except Bottom:
                continue
            outs.append(r)
            states.append(s)
        if unk:
            if f.only_consts() and all(c.v is None for c in f.consts):
                self.emit("call-none", node, st=st)
            else:
                s = st if n == 1 else st.clone()
                outs.append(self.ext.unknown_call(f, args, node, s))
                states.append(s)
        if not outs:
            raise Bottom()
        if len(states) == 1:
            if states[0] is not st:
                st.assign(states[0])
        else:
            j = None
            for s in states:
                j = join_states(j, s)
            st.assign(j)
        return joinall(outs)

    def call_obj(self, t, args, node, st, lab=E0, only=False):
        if isinstance(t, Loc):
            h = st.heap.get(t)
            if isinstance(h, Func):
                return self.call_func(t, args, node, st)
            if isinstance(h, Class):
                return self.instantiate(t, args, node, st)
            if isinstance(h, Inst):
                val, c = self.class_attr(h.cls, "__call__", st)
                if val is not None:
                    return self.call(
                        self.bind(val, t, st, node, c), args, node, st
                    )
                return self.ext.unknown_call(obj(t), args, node, st)
            if isinstance(h, Opaque):
                return h.contract.call(self, t, h, args, st, node)
            if isinstance(h, (Seq, Dict)) and only:
                # no function
                self.add_exc(("b", "TypeError"), st)
                raise Bottom()
            return self.ext.unknown_call(obj(t), args, node, st)
        if isinstance(t, Bound):
            a = Args([obj(t.self_)] + args.pos, args.kw, args.rest,
                     args.kwrest)
            return self.call_func(t.func, a, node, st)
        if isinstance(t, Ext):
            return self.ext.call_ext(t, args, node, st)
        if isinstance(t, ExtBound):
            return self.ext.call_method(t.recv, t.name, args, node, st)
        if isinstance(t, Arr) and only:
            self.add_exc(("b", "TypeError"), st)
            raise Bottom()
        return self.ext.unknown_call(V(frozenset((t,))), args, node, st)

    def instantiate(self, cl, args, node, st):
        c = st.heap[cl]
        if c.flavour == "enum":
            return joinall(
                [
                    v
                    for k, v in c.fields.items()
                    if any(
                        isinstance(st.heap.get(x), Inst)
                        for x in v.objs
                        if isinstance(x, Loc)
                    )
                ],
                UNK,
            )
        missing = self.abstract_methods(cl, st)
        if missing:
            self.emit("abstract-instantiation", node, cls=cl,
                      missing=sorted(missing), st=st)
            self.add_exc(("b", "TypeError"), st)
            raise Bottom()
        il = self.alloc(st, node, Inst(cl, {}), ("inst", cl.key))
        if c.flavour in ("namedtuple", "dataclass"):
            order = []
            defaults = {}
            for k in reversed(self.mro(cl, st)):
                if isinstance(k, Loc) and isinstance(st.heap[k].tag, tuple):
                    for nme in st.heap[k].tag:
                        if nme not in order:
                            order.append(nme)
                    for nme in st.heap[k].tag:
                        if nme in st.heap[k].fields:
                            defaults[nme] = st.heap[k].fields[nme]
            i = st.edit(il)
            for k, nme in enumerate(order):
                v = args.get(k, nme)
                if v is None:
                    v = args.kwrest or defaults.get(nme, UNK)
                i.fields[nme] = v
            i.tag = ("nt", tuple(order)) if c.flavour == "namedtuple" else None
            self.emit("instance", node, loc=il, cls=cl, st=st)
            return obj(il)
        init, owner = self.class_attr(cl, "__init__", st)
        if init is not None:
            self.call(self.bind(init, il, st, node, owner), args, node, st)
        else:
            for b in self.ext_bases(cl, st):
                if b.path in ("builtins.Exception",):
                    break
        self.emit("instance", node, loc=il, cls=cl, st=st)
        return obj(il)

    def abstract_methods(self, cl, st):
        names = set()
        done = set()
        is_abc = any(
            isinstance(b, Ext) and b.path == "abc.ABC"
            for b in self.mro(cl, st)
        )
        if not is_abc:
            return names
        for c in self.mro(cl, st):
            if not isinstance(c, Loc):
                continue
            for k, v in st.heap[c].fields.items():
                if k in done:
                    continue
                done.add(k)
                x = v.single()
                h = st.heap.get(x) if isinstance(x, Loc) else None
                if isinstance(h, Func) and "abstractmethod" in h.deco:
                    names.add(k)
        return names

    def bind_args(self, info, h, args, node, st):
        vars_ = {}
        params = info.params
        nd = len(h.defaults)
        first_def = len(params) - nd
        used_kw = set()
        npos = len(args.pos)
        for i, p in enumerate(params):
            if i < npos:
                vars_[p] = args.pos[i]
                if p in args.kw:
                    self.emit("bad-call", node, func=info.full, st=st,
                              why=f"multiple values for {p}")
                    self.add_exc(("b", "TypeError"), st)
                    raise Bottom()
            elif p in args.kw:
                vars_[p] = args.kw[p]
                used_kw.add(p)
                if args.kwrest is not None and i >= first_def:
                    pass
            else:
                d = h.defaults[i - first_def] if i >= first_def else None
                cands = []
                if args.rest is not None:
                    cands.append(args.rest)
                if args.kwrest is not None and d is None:
                    cands.append(args.kwrest)
                if args.kwrest is not None and d is not None:
                    # an unknown **mapping may override a default
                    if args.kwrest.lab or args.kwrest.objs:
                        pass
                if d is not None:
                    cands.append(d)
                if not cands:
                    self.emit("bad-call", node, func=info.full, st=st,
                              why=f"missing argument {p}")
                    self.add_exc(("b", "TypeError"), st)
                    raise Bottom()
                vars_[p] = joinall(cands)
        extra = args.pos[len(params):]
        if info.vararg:
            rest = args.rest
            vars_[info.vararg] = obj(
                self.alloc(st, node, Seq("tuple", extra, rest),
                           ("varargs", info.full))
            )
        elif extra:
            self.emit("bad-call", node, func=info.full, st=st,
                      why="too many positional arguments")
            self.add_exc(("b", "TypeError"), st)
            raise Bottom()
        kwd = dict(h.kwdefaults)
        for p in info.kwonly:
            if p in args.kw:
                vars_[p] = args.kw[p]
                used_kw.add(p)
            elif p in kwd:
                vars_[p] = kwd[p]
            elif args.kwrest is not None:
                vars_[p] = args.kwrest
            else:
                self.emit("bad-call", node, func=info.full, st=st,
                          why=f"missing argument {p}")
                self.add_exc(("b", "TypeError"), st)
                raise Bottom()
        left = {k: v for k, v in args.kw.items() if k not in used_kw
                and k not in info.params[:npos]}
        if info.kwarg:
            d = Dict({Const(k): v for k, v in left.items()})
            if args.kwrest is not None:
                d.rk, d.rv = STR, args.kwrest
            vars_[info.kwarg] = obj(
                self.alloc(st, node, d, ("kwargs", info.full))
            )
        elif left:
            self.emit("bad-call", node, func=info.full, st=st,
                      why=f"unexpected keyword {sorted(left)[0]}")
            self.add_exc(("b", "TypeError"), st)
            raise Bottom()
        return vars_

    def call_func(self, floc, args, node, st):
        h = st.heap[floc]
        info = h.info
        self.calls += 1
        if "staticmethod" in h.deco and False:
            pass
        depth = sum(1 for i, _ in self.stack if i is info)
        cap = self.MAXREC
        if depth:
            n = self.rec_calls[info] = self.rec_calls.get(info, 0) + 1
            if n > (3000 if self.grids else 60):  # bushy recursion: stop unfolding it
                cap = 1
        if depth >= cap or len(self.stack) >= self.MAXDEPTH:
            labs = set()
            for a in args.all():
                labs |= self.deep_labels(a, st)
            self.emit("recursion-cut", node, func=info.full, st=st)
            return prim("unk", lab=frozenset(labs))
        vars_ = self.bind_args(info, h, args, node, st)
        self.functions_seen.add(info.full)
        self.emit("call", node, func=floc, info=info, vars=vars_, st=st)
        saved_ctx = self.ctx
        self.ctx = self.push_ctx(
            (getattr(node, "_uid", None) or ("x", 0), info.node._uid)
        )
        fr = Frame(h.frame)
        fr.vars = vars_
        if h.owner is not None and info.params:
            fr.tag = ("fn", h.owner, info.params[0])
        fl = Loc(("frame", info.node._uid, self.ctx), f"frame:{info.name}")
        old = st.heap.get(fl)
        if old is not None and fl in self.captured and self.loop_depth:
            nf = fr.clone()
            nf.vars = {
                k: (join(old.vars[k], v) if k in old.vars else v)
                for k, v in fr.vars.items()
            }
            fr = nf
            fr.multi = True
        st.heap[fl] = fr
        saved_frame = st.frame
        saved_pc = st.pc
        st.frame = fl
        outer = self.A
        A = Acc()
        self.A = A
        self.stack.append((info, node))
        if not hasattr(self, "_gdepth"):
            self._gdepth = []
        self._gdepth.append(self.loop_depth)
        saved_loop = self.loop_depth
        try:
            if info.is_lambda:
                try:
                    v = self.eval(info.node.body, st)
                    A.ret = st
                    A.retv = v
                    A.vals = None
                except Bottom:
                    pass
            else:
                end = self.exec_block(info.node.body, st)
                if end is not None:
                    A.ret = join_states(A.ret, end)
                    A.retv = join(A.retv, NONE)
                    A.vals = None
        finally:
            self.stack.pop()
            self._gdepth.pop()
            self.A = outer
            self.ctx = saved_ctx
            self.loop_depth = saved_loop
        for k, e in A.exc.items():
            e.frame = saved_frame
            e.pc = saved_pc
            outer.exc[k] = join_states(outer.exc.get(k), e)
        if A.ret is None:
            self.emit("no-return", node, info=info)
            raise Bottom()
        if A.ret is not st:
            st.assign(A.ret)
        st.frame = saved_frame
        st.pc = saved_pc
        if fl not in self.captured:
            st.heap.pop(fl, None)
        ret = A.retv
        if A.vals and len(A.vals) > 1 and not ret.objs and poly.STATE["on"]:
            v = self.returned(A.vals)
            if v is not None:
                ret = V(E0, v.prims, v.consts, ret.lab, v.f)
        if info.is_gen:
            q = Seq("iter", A.yields, A.yrest)
            if A.yrest is None and not A.yields:
                q = Seq("iter", ())
            if A.yrest is not None and A.yields:
                q = Seq("iter", (), joinall(A.yields + [A.yrest]))
            ret = obj(self.alloc(st, node, q, ("gen", info.full)))
        self.emit("return", node, func=floc, info=info, value=ret, st=st)
        return ret

    # ------------------------------------------------------- truth/refine
    def truth(self, v, st):
        out = set()
        for c in v.consts:
            out.add(bool(c.v))
        for p in v.prims:
            if p == "none":
                out.add(False)
            elif p in ("datetime", "date", "time"):
                out.add(True)
            else:
                iv = v.f.get("iv")
                if iv is not None and p in ("int", "float"):
                    lo, hi, lox, hix = iv
                    if lo > 0 or hi < 0 or (lo == 0 and lox) or (
                        hi == 0 and hix
                    ):
                        out.add(True)
                        continue
                    if lo == 0 and hi == 0:
                        out.add(False)
                        continue
                out |= {True, False}
        for o in v.objs:
            out |= self.truth_obj(o, st)
        return out or {True, False}

    def truth_obj(self, o, st):
        if isinstance(o, Loc):
            h = st.heap.get(o)
            if isinstance(h, Seq):
                if h.typ == "iter":
                    return {True}
                if h.prefix:
                    return {True}
                return {False} if h.rest is None else {True, False}
            if isinstance(h, Dict):
                sure = [k for k in h.items if k not in h.maybe]
                if sure:
                    return {True}
                if h.rk is None and not h.items:
                    return {False}
                return {True, False}
            if isinstance(h, Inst):
                for nm in ("__bool__", "__len__"):
                    val, c = self.class_attr(h.cls, nm, st)
                    if val is not None:
                        return {True, False}
                return {True}
            if isinstance(h, (Func, Class, Module, File)):
                return {True}
            if isinstance(h, Opaque):
                return {True}
            return {True, False}
        if isinstance(o, Arr):
            b = st.heap.get(o.buf)
            if b is not None and not o.axes:
                return self.truth(b.all(), st)
            return {True, False}
        if isinstance(o, (Bound, Ext, ExtBound, ExcInst)):
            return {True}
        return {True, False}

    def refine(self, test, val, st):
        """narrow the state by assuming `test` has truth value `val`"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not val, st)
        if isinstance(test, ast.BoolOp):
            is_and = isinstance(test.op, ast.And)
            if is_and == val:
                for e in test.values:
                    self.refine(e, val, st)
            return
        if isinstance(test, ast.NamedExpr):
            self._set_ref(
                test.target, self.filter_truth(
                    self._get_ref(test.target, st), val, st), st)
            return
        if isinstance(test, (ast.Name, ast.Attribute)):
            v = self._get_ref(test, st)
            if v is None:
                return
            self._apply_zero(v, val, st)
            nv = self.filter_truth(v, val, st)
            if nv.bottom():
                raise Bottom()
            self._set_ref(test, nv, st)
            return
        if isinstance(test, ast.Call):
            f = test.func
            if isinstance(f, ast.Name) and f.id == "isinstance" and len(
                test.args
            ) == 2:
                v = self._get_ref(test.args[0], st)
                if v is None:
                    return
                try:
                    tv = self.eval(test.args[1], st.clone())
                except Bottom:
                    return
                nv = self.ext.filter_isinstance(v, tv, val, st)
                if nv.bottom():
                    raise Bottom()
                self._set_ref(test.args[0], nv, st)
                return
            # np.any(dist == 0) and the like
            self._refine_zero_expr(test, val, st)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op = test.ops[0]
            l, r = test.left, test.comparators[0]
            self._refine_cmp(l, op, r, val, st)
            if not isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
                self._refine_cmp(r, SWAP.get(type(op), op), l, val, st)
            self._refine_zero_expr(test, val, st)
            return
        if isinstance(test, ast.Compare) and val:
            left = test.left
            for op, r in zip(test.ops, test.comparators):
                self._refine_cmp(left, op, r, True, st)
                left = r
            return

    def _refine_zero_expr(self, test, val, st):
        # evaluation is repeated on a scratch state to obtain the facet
        saved = self.listeners
        self.listeners = []
        try:
            v = self.eval(test, st.clone())
        except Bottom:
            return
        finally:
            self.listeners = saved
        self._apply_zero(v, val, st)

    def _apply_zero(self, v, val, st):
        z = v.f.get("anyzero")
        if z is not None and not val:
            self.ext.mark_nonzero(z, st)
        z = v.f.get("nonezero")
        if z is not None and val:
            self.ext.mark_nonzero(z, st)

    def _get_ref(self, e, st):
        if isinstance(e, ast.Name):
            loc = st.frame
            while loc is not None:
                fr = st.heap[loc]
                if e.id in fr.vars:
                    return fr.vars[e.id]
                loc = fr.parent
            return None
        if isinstance(e, ast.Attribute):
            base = self._get_ref(e.value, st)
            if base is None:
                return None
            o = base.single()
            h = st.heap.get(o) if isinstance(o, Loc) else None
            if isinstance(h, Inst) and e.attr in h.fields:
                return h.fields[e.attr]
        return None

    def _set_ref(self, e, v, st):
        if isinstance(e, ast.Name):
            loc = st.frame
            while loc is not None:
                fr = st.heap[loc]
                if e.id in fr.vars:
                    if fr.multi:
                        return
                    fr = st.edit(loc)
                    fr.vars[e.id] = v
                    return
                loc = fr.parent
        elif isinstance(e, ast.Attribute):
            base = self._get_ref(e.value, st)
            o = base.single() if base is not None else None
            h = st.heap.get(o) if isinstance(o, Loc) else None
            if isinstance(h, Inst) and not h.multi and e.attr in h.fields:
                i = st.edit(o)
                i.fields[e.attr] = v

    def filter_truth(self, v, val, st):
        cs = frozenset(c for c in v.consts if bool(c.v) == val)
        prims = v.prims
        if val:
            prims = prims - {"none"}
        objs = frozenset(
            o for o in v.objs if val in self.truth_obj(o, st)
        )
        if prims == {"bool"} and not objs:
            return V(E0, E0, frozenset((Const(val),)), v.lab, v.f)
        return V(objs, prims, cs, v.lab, v.f)

    def _refine_cmp(self, l, op, r, val, st):
        v = self._get_ref(l, st)
        if v is None:
            return
        try:
            saved = self.listeners
            self.listeners = []
            rv = self.eval(r, st.clone())
        except Bottom:
            return
        finally:
            self.listeners = saved
        neg = isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn))
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            same = val != neg
            if rv.is_const():
                c = rv.const()
                if c is None:
                    if same:
                        cs = frozenset(x for x in v.consts if x.v is None)
                        prims = v.prims & {"none"}
                        if "unk" in v.prims:
                            cs = cs | {Const(None)}
                        nv = V(E0, prims, cs, v.lab, v.f)
                    else:
                        nv = V(
                            v.objs,
                            v.prims - {"none"},
                            frozenset(
                                x for x in v.consts if x.v is not None
                            ),
                            v.lab,
                            v.f,
                        )
                    if nv.bottom():
                        raise Bottom()
                    self._set_ref(l, nv, st)
                    return
                if isinstance(c, (str, int, float, bool)):
                    if same:
                        cs = frozenset(x for x in v.consts if x.v == c)
                        if v.prims and not v.objs:
                            nv = V(E0, E0, cs | {Const(c)}, v.lab, v.f)
                        elif v.objs:
                            return
                        else:
                            nv = V(E0, E0, cs, v.lab, v.f)
                    else:
                        nv = V(
                            v.objs,
                            v.prims,
                            frozenset(x for x in v.consts if x.v != c),
                            v.lab,
                            v.f,
                        )
                    if nv.bottom():
                        raise Bottom()
                    self._set_ref(l, nv, st)
            elif len(rv.objs) == 1 and isinstance(op, (ast.Is, ast.IsNot)):
                o = rv.single()
                if o is None:
                    return
                if same:
                    nv = V(v.objs & {o}, v.prims, E0, v.lab, v.f)
                    if not nv.bottom():
                        self._set_ref(l, nv, st)
                else:
                    nv = V(v.objs - {o}, v.prims, v.consts, v.lab, v.f)
                    if not nv.bottom():
                        self._set_ref(l, nv, st)
            return
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            iv = D.interval(v)
            riv = D.interval(rv)
            if riv is None:
                return
            if iv is None:
                if v.objs or not (v.prims & {"int", "float"}):
                    return
                iv = (float("-inf"), float("inf"), False, False)
            o = type(op)
            if not val:
                o = NEG[o]
            lo, hi, lox, hix = iv
            rlo, rhi, rlox, rhix = riv
            if o in (ast.Lt, ast.LtE):
                x = rhix or o is ast.Lt
                if rhi < hi or (rhi == hi and x):
                    hi, hix = rhi, x
            else:
                x = rlox or o is ast.Gt
                if rlo > lo or (rlo == lo and x):
                    lo, lox = rlo, x
            if lo > hi or (lo == hi and (lox or hix)):
                raise Bottom()
            if v.consts and not v.prims:
                cs = frozenset(
                    c for c in v.consts
                    if isinstance(c.v, (int, float))
                    and (c.v > lo or (c.v == lo and not lox))
                    and (c.v < hi or (c.v == hi and not hix))
                )
                nv = V(v.objs, E0, cs, v.lab, v.f)
                if nv.bottom():
                    raise Bottom()
            else:
                nv = v.withf(iv=(lo, hi, lox, hix))
            self._set_ref(l, nv, st)


SWAP = {
    ast.Lt: ast.Gt(), ast.Gt: ast.Lt(), ast.LtE: ast.GtE(),
    ast.GtE: ast.LtE(), ast.Eq: ast.Eq(), ast.NotEq: ast.NotEq(),
}
NEG = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}


class FuncInfoModule:
    is_lambda = False

    def __init__(self, mod):
        self.mod = mod
        self.qualname = f"<module {mod.name}>"
        self.name = mod.name
        self.full = f"{mod.name}:<module>"


def canon(name):
    """canonical dotted path of an external name"""
    if name == "numpy" or name.startswith("numpy."):
        return name
    return name


def children(h):
    """values held by a heap object"""
    if isinstance(h, Inst):
        return list(h.fields.values())
    if isinstance(h, Seq):
        return list(h.prefix) + ([h.rest] if h.rest is not None else [])
    if isinstance(h, Dict):
        return list(h.items.values()) + [
            x for x in (h.rk, h.rv) if x is not None
        ]
    if isinstance(h, Buf):
        return [h.all()]
    if isinstance(h, Opaque):
        return list(h.fields.values())
    if isinstance(h, Func):
        return list(h.defaults) + [v for _, v in h.kwdefaults]
    return []
