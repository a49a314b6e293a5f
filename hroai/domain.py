"""Abstract values, heap objects and state of the hroai abstract interpreter.

Nothing in here executes repository code: values are sets of abstract
objects, primitive kinds and small sets of constants, plus facets (angle
scale, quantity role, interval, index space, ...) that the rules consult.
"""
import datetime
import math

BOT_CONSTS = frozenset()


class Loc:
    """Allocation site (with calling context) of a heap object."""

    __slots__ = ("key", "name")
    table = {}

    def __new__(cls, key, name):
        # one object per key: equality is identity
        loc = cls.table.get(key)
        if loc is None:
            loc = cls.table[key] = object.__new__(cls)
            loc.key = key
            loc.name = name
        return loc

    def __repr__(self):
        return f"<{self.name}>"


class Ext:
    """External (not repository) module, class or function by dotted path."""

    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __hash__(self):
        return hash(("Ext", self.path))

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __repr__(self):
        return f"ext:{self.path}"


class Bound:
    """Repository function bound to a receiver object."""

    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __hash__(self):
        return hash(("Bound", self.func, self.self_))

    def __eq__(self, o):
        return (
            isinstance(o, Bound)
            and o.func == self.func
            and o.self_ == self.self_
        )

    def __repr__(self):
        return f"bound({self.func},{self.self_})"


class ExtBound:
    """External method bound to a receiver value."""

    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name

    def __hash__(self):
        return hash(("EB", self.name, self.recv))

    def __eq__(self, o):
        return (
            isinstance(o, ExtBound)
            and o.name == self.name
            and o.recv == self.recv
        )


class Super:
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_

    def __hash__(self):
        return hash(("Super", self.cls, self.self_))

    def __eq__(self, o):
        return (
            isinstance(o, Super)
            and o.cls == self.cls
            and o.self_ == self.self_
        )


class Arr:
    """A view on an array buffer.

    axes: tuple of 'F' (axis whose entries are the individually tracked
    fields of the buffer) or ('R', space) where `space` identifies the
    sequence of rows the axis enumerates (None: unknown).
    sel: indices of selected fields, None for all.
    """

    __slots__ = ("buf", "axes", "sel", "_h")

    def __init__(self, buf, axes, sel=None):
        self.buf = buf
        self.axes = axes
        self.sel = sel
        self._h = hash((buf, axes, sel))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (
            isinstance(o, Arr)
            and self.buf == o.buf
            and self.axes == o.axes
            and self.sel == o.sel
        )

    def __repr__(self):
        return f"Arr({self.buf},{self.axes},{self.sel})"


def ckey(c):
    """constants are compared with their type (1 != True != 1.0)"""
    return (type(c).__name__, c)


class Const:
    __slots__ = ("v", "_k")

    def __init__(self, v):
        self.v = v
        if isinstance(v, float) and v != v:
            self._k = ("float", "nan")
        else:
            self._k = (type(v).__name__, v)

    def __hash__(self):
        return hash(self._k)

    def __eq__(self, o):
        return isinstance(o, Const) and o._k == self._k

    def __repr__(self):
        return repr(self.v)


MAXCONST = 8
MAXOBJ = 10
E0 = frozenset()


class V:
    __slots__ = ("objs", "prims", "consts", "lab", "f", "_h")

    def __init__(self, objs=E0, prims=E0, consts=E0, lab=E0, f=None):
        self.objs = objs
        self.prims = prims
        self.consts = consts
        self.lab = lab
        self.f = f or {}
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.objs, self.prims, self.consts, self.lab))
        return self._h

    def __eq__(self, o):
        return self is o or (
            isinstance(o, V)
            and self.objs == o.objs
            and self.prims == o.prims
            and self.consts == o.consts
            and self.lab == o.lab
            and self.f == o.f
        )

    def __repr__(self):
        parts = []
        if self.consts:
            parts.append("c=" + ",".join(map(repr, self.consts)))
        if self.prims:
            parts.append("p=" + ",".join(sorted(self.prims)))
        if self.objs:
            parts.append("o=" + ",".join(map(repr, self.objs)))
        if self.lab:
            parts.append("L=" + ",".join(sorted(map(str, self.lab))))
        if self.f:
            parts.append("f=" + repr(self.f))
        return "V(" + " ".join(parts) + ")"

    # -- helpers
    def bottom(self):
        return not (self.objs or self.prims or self.consts)

    def const(self):
        """the single constant, or raise LookupError"""
        if len(self.consts) == 1 and not self.objs and not self.prims:
            for c in self.consts:
                return c.v
        raise LookupError

    def is_const(self):
        return len(self.consts) == 1 and not self.objs and not self.prims

    def only_consts(self):
        return bool(self.consts) and not self.objs and not self.prims

    def withlab(self, lab):
        if not lab or lab <= self.lab:
            return self
        return V(self.objs, self.prims, self.consts, self.lab | lab, self.f)

    def withf(self, **kw):
        f = dict(self.f)
        for k, v in kw.items():
            if v is None:
                f.pop(k, None)
            else:
                f[k] = v
        return V(self.objs, self.prims, self.consts, self.lab, f)

    def single(self):
        if len(self.objs) == 1 and not self.prims and not self.consts:
            for o in self.objs:
                return o
        return None

    def may_unknown(self):
        return "unk" in self.prims


def const(c, lab=E0):
    return V(consts=frozenset((Const(c),)), lab=lab)


def prim(*p, lab=E0, **f):
    return V(prims=frozenset(p), lab=lab, f=f)


def obj(o, lab=E0, **f):
    return V(objs=frozenset((o,)), lab=lab, f=f)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNK = prim("unk")
BOOL = prim("bool")
INT = prim("int")
FLOAT = prim("float")
STR = prim("str")
BOT = V()


# ---------------------------------------------------------------- facets
# facets that are meaningful only when both sides agree
def _j_same(a, b):
    return a if a == b else None


def _iv_join(a, b):
    lo = min((a[0], 1 if a[2] else 0), (b[0], 1 if b[2] else 0))
    hi = max((a[1], 0 if a[3] else 1), (b[1], 0 if b[3] else 1))
    return (lo[0], hi[0], bool(lo[1]), not bool(hi[1]))


FACET_JOIN = {
    "iv": _iv_join,
    "raw": lambda a, b: a or b,
    "trunc": lambda a, b: a or b,
    "z": lambda a, b: a | b,
    "mix": lambda a, b: a | b,
}
# facets for which a missing value on one side is absorbed ("may" facets)
MAY = {"raw", "z", "trunc", "mix"}
# facets for which a plain numeric constant does not destroy information
CONST_TOLERANT = {"ang", "role"}


def plain_const(v):
    return v.only_consts()


def join(a, b):
    if a is b or a == b:
        return a
    if a.bottom() and not a.lab:
        return b
    if b.bottom() and not b.lab:
        return a
    objs = a.objs | b.objs
    prims = a.prims | b.prims
    consts = a.consts | b.consts
    lost = False
    if len(consts) > MAXCONST:
        prims = prims | frozenset(kind_of_const(c.v) for c in consts)
        lost = any(isinstance(c.v, float) and not abs(c.v) < float("inf")
                   for c in consts)
        consts = E0
    f = {}
    if a.f or b.f:
        ac, bc = plain_const(a), plain_const(b)
        for k in set(a.f) | set(b.f):
            if k in a.f and k in b.f:
                x = a.f[k]
                y = b.f[k]
                r = x if x == y else FACET_JOIN.get(k, _j_same)(x, y)
                if r is not None:
                    f[k] = r | f[k] if k == "mix" and k in f else r
                elif k == "role":
                    f["mix"] = f.get("mix", E0) | frozenset((x, y))
            elif k in MAY:
                x = a.f.get(k) or b.f.get(k)
                f[k] = f[k] | x if k == "mix" and k in f else x
            elif k in CONST_TOLERANT:
                if k in a.f and bc:
                    f[k] = a.f[k]
                elif k in b.f and ac:
                    f[k] = b.f[k]
            elif k == "fin":
                # about the part that is not constant
                if bc if k in a.f else ac:
                    f[k] = True
            elif k == "iv":
                c = b if k in a.f else a
                iv = interval(c)
                if iv is not None:
                    f[k] = _iv_join(a.f.get(k) or iv, b.f.get(k) or iv)
    if lost:
        f.pop("fin", None)
    return V(objs, prims, consts, a.lab | b.lab, f)


# while two states are joined that differ in the truth of a known condition:
# (its form, whether the first state is the one where it holds)
GATE = [None]
GATED = [None]  # set by poly


def gjoin(a, b):
    """the value of one place in two states that are joined"""
    v = join(a, b)
    if GATE[0] is not None and v is not a and not v.objs:
        return GATED[0](v, a, b, *GATE[0])
    return v


def split(p, q):
    """common part of two paths, and the condition they differ in"""
    n = 0
    for x, y in zip(p, q):
        if x != y:
            if x[0] == y[0] and isinstance(x[0], tuple):
                return p[:n], (x[0], x[1])
            return p[:n], None
        n += 1
    return p[:n], None


def joinall(vs, default=BOT):
    r = None
    for v in vs:
        r = v if r is None else join(r, v)
    return default if r is None else r


def kind_of_const(c):
    if c is None:
        return "none"
    if isinstance(c, bool):
        return "bool"
    if isinstance(c, int):
        return "int"
    if isinstance(c, float):
        return "float"
    if isinstance(c, str):
        return "str"
    if isinstance(c, bytes):
        return "bytes"
    if isinstance(c, (datetime.date, datetime.time, datetime.timedelta)):
        return type(c).__name__
    return "unk"


def interval(v):
    """interval of a numeric abstract value, or None"""
    if "iv" in v.f:
        return v.f["iv"]
    if v.only_consts():
        vals = []
        for c in v.consts:
            if isinstance(c.v, (int, float)) and not isinstance(c.v, bool):
                vals.append(c.v)
            else:
                return None
        if any(x != x for x in vals):
            return None
        return (min(vals), max(vals), False, False)
    return None


# ---------------------------------------------------------------- objects
class Obj:
    kind = "obj"
    __slots__ = ("multi", "tag")

    def __init__(self):
        self.multi = False
        self.tag = None

    def clone(self):
        n = object.__new__(type(self))
        for s in self._slots():
            v = getattr(self, s)
            if isinstance(v, dict):
                v = dict(v)
            setattr(n, s, v)
        return n

    @classmethod
    def _slots(cls):
        out = []
        for c in cls.__mro__:
            out.extend(getattr(c, "__slots__", ()))
        return out

    def same(self, o):
        if type(self) is not type(o):
            return False
        return all(getattr(self, s) == getattr(o, s) for s in self._slots())


def _join_dict(a, b, missing=None):
    out = dict(a)
    for k, v in b.items():
        out[k] = gjoin(out[k], v) if k in out else v
    return out


class Frame(Obj):
    """variables of a function activation, class body or module"""

    kind = "frame"
    __slots__ = ("vars", "parent", "maybe", "globals_")

    def __init__(self, parent=None):
        super().__init__()
        self.vars = {}
        self.parent = parent
        self.maybe = E0  # names possibly unbound
        self.globals_ = E0

    def join(self, o):
        n = self.clone()
        n.maybe = (
            self.maybe
            | o.maybe
            | (frozenset(self.vars) ^ frozenset(o.vars))
        )
        n.vars = _join_dict(self.vars, o.vars)
        n.globals_ = self.globals_ | o.globals_
        return n


class Inst(Obj):
    kind = "inst"
    __slots__ = ("cls", "fields", "maybe")

    def __init__(self, cls, fields=None):
        super().__init__()
        self.cls = cls
        self.fields = fields or {}
        self.maybe = E0

    def join(self, o):
        n = self.clone()
        n.maybe = (
            self.maybe
            | o.maybe
            | (frozenset(self.fields) ^ frozenset(o.fields))
        )
        n.fields = _join_dict(self.fields, o.fields)
        n.multi = self.multi or o.multi
        return n


class Seq(Obj):
    """list, tuple, set, iterator: exact prefix plus summarised rest"""

    kind = "seq"
    __slots__ = ("typ", "prefix", "rest", "space", "extra")

    def __init__(self, typ, prefix=(), rest=None, space=None, extra=None):
        super().__init__()
        self.typ = typ
        self.prefix = tuple(prefix)
        self.rest = rest
        self.space = space
        self.extra = extra  # e.g. "empty-ok", zip parts

    def exact(self):
        return self.rest is None

    def elem(self):
        vs = list(self.prefix)
        if self.rest is not None:
            vs.append(self.rest)
        return joinall(vs)

    def join(self, o):
        n = self.clone()
        n.multi = self.multi or o.multi
        if self.typ != o.typ:
            n.typ = self.typ
        n.space = self.space if self.space == o.space else None
        n.extra = self.extra if self.extra == o.extra else None
        if len(self.prefix) == len(o.prefix):
            n.prefix = tuple(
                gjoin(a, b) for a, b in zip(self.prefix, o.prefix))
            if self.rest is None and o.rest is None:
                n.rest = None
            else:
                n.rest = joinall(
                    [x for x in (self.rest, o.rest) if x is not None]
                )
            return n
        k = min(len(self.prefix), len(o.prefix))
        pre = tuple(
            join(a, b) for a, b in zip(self.prefix[:k], o.prefix[:k])
        )
        rest = list(self.prefix[k:]) + list(o.prefix[k:])
        rest += [x for x in (self.rest, o.rest) if x is not None]
        n.prefix = pre
        n.rest = joinall(rest)
        return n


class Dict(Obj):
    kind = "dict"
    __slots__ = ("items", "maybe", "rk", "rv", "space", "ks")

    def __init__(self, items=None, rk=None, rv=None, space=None, ks=None):
        super().__init__()
        self.items = items or {}
        self.maybe = E0
        self.rk = rk
        self.rv = rv
        self.space = space
        self.ks = ks  # symbolic key set

    def elem(self):
        vs = list(self.items.values())
        if self.rv is not None:
            vs.append(self.rv)
        return joinall(vs)

    def keyelem(self):
        vs = [V(consts=frozenset((k,))) for k in self.items]
        if self.rk is not None:
            vs.append(self.rk)
        return joinall(vs)

    def join(self, o):
        n = self.clone()
        n.multi = self.multi or o.multi
        n.maybe = (
            self.maybe
            | o.maybe
            | (frozenset(self.items) ^ frozenset(o.items))
        )
        n.items = _join_dict(self.items, o.items)
        if self.rk is not None or o.rk is not None:
            n.rk = joinall([x for x in (self.rk, o.rk) if x is not None])
            n.rv = joinall([x for x in (self.rv, o.rv) if x is not None])
        n.space = self.space if self.space == o.space else None
        n.ks = self.ks if self.ks == o.ks else None
        return n


class Buf(Obj):
    """array buffer"""

    kind = "buf"
    __slots__ = ("fields", "rest", "elem", "prov", "parts", "dtype")

    def __init__(self, fields=None, rest=None, elem=None, prov=None,
                 dtype=None):
        super().__init__()
        self.fields = fields
        self.rest = rest
        self.elem = elem
        self.prov = prov
        self.parts = None
        self.dtype = dtype

    def all(self):
        vs = []
        if self.fields is not None:
            vs.extend(self.fields)
        if self.rest is not None:
            vs.append(self.rest)
        if self.elem is not None:
            vs.append(self.elem)
        if self.parts is not None:
            vs.append(self.parts[1])
        return joinall(vs, UNK)

    def join(self, o):
        n = self.clone()
        n.multi = self.multi or o.multi
        n.prov = self.prov if self.prov == o.prov else None
        n.parts = self.parts if self.parts == o.parts else None
        n.dtype = self.dtype if self.dtype == o.dtype else None
        if (
            self.fields is not None
            and o.fields is not None
            and len(self.fields) == len(o.fields)
        ):
            n.fields = tuple(
                gjoin(a, b) for a, b in zip(self.fields, o.fields))
            rs = [x for x in (self.rest, o.rest) if x is not None]
            n.rest = joinall(rs) if rs else None
            es = [x for x in (self.elem, o.elem) if x is not None]
            n.elem = joinall(es) if es else None
        elif self.fields is None and o.fields is None:
            es = [x for x in (self.elem, o.elem) if x is not None]
            n.elem = joinall(es) if es else None
        else:
            n.fields = None
            n.rest = None
            n.elem = join(self.all(), o.all())
        if n.parts is None and (
            self.parts is not None or o.parts is not None
        ):
            extra = [b.parts[1] for b in (self, o) if b.parts is not None]
            if n.fields is not None:
                n.fields = tuple(joinall([x] + extra) for x in n.fields)
            elif n.elem is not None:
                n.elem = joinall([n.elem] + extra)
        return n


class Func(Obj):
    kind = "func"
    __slots__ = ("info", "frame", "defaults", "kwdefaults", "owner", "deco")

    def __init__(self, info, frame, defaults, kwdefaults, owner, deco):
        super().__init__()
        self.info = info
        self.frame = frame
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.owner = owner
        self.deco = deco  # tuple of decorator kinds

    def join(self, o):
        n = self.clone()
        n.defaults = tuple(join(a, b) for a, b in zip(self.defaults, o.defaults))
        return n


class Class(Obj):
    kind = "class"
    __slots__ = ("info", "frame", "bases", "fields", "flavour", "abstract")

    def __init__(self, info, bases, fields, flavour):
        super().__init__()
        self.info = info
        self.frame = None
        self.bases = bases  # tuple of Loc or Ext
        self.fields = fields
        self.flavour = flavour  # None, 'enum', 'namedtuple', 'dataclass'
        self.abstract = E0

    def join(self, o):
        n = self.clone()
        n.fields = _join_dict(self.fields, o.fields)
        return n


class Module(Obj):
    kind = "module"
    __slots__ = ("name", "frame")

    def __init__(self, name, frame):
        super().__init__()
        self.name = name
        self.frame = frame

    def join(self, o):
        return self


class File(Obj):
    """an open file: status is the set of possible typestates"""

    kind = "file"
    __slots__ = ("path", "mode", "status", "managed", "pos")

    def __init__(self, path, mode):
        super().__init__()
        self.path = path
        self.mode = mode
        self.status = frozenset(("open",))
        self.managed = False
        self.pos = 0

    def join(self, o):
        n = self.clone()
        n.status = self.status | o.status
        n.path = join(self.path, o.path)
        n.pos = self.pos if self.pos == o.pos else None
        n.managed = self.managed and o.managed
        return n


class Opaque(Obj):
    """object whose behaviour is a contract supplied by the harness"""

    kind = "opaque"
    __slots__ = ("cls", "contract", "name", "fields")

    def __init__(self, cls, contract, name):
        super().__init__()
        self.cls = cls
        self.contract = contract
        self.name = name
        self.fields = {}

    def join(self, o):
        n = self.clone()
        n.fields = _join_dict(self.fields, o.fields)
        return n


class Ghost(Obj):
    """analysis-only global state (virtual file system, event log, ...)"""

    kind = "ghost"
    __slots__ = ("data",)

    def __init__(self, data=None):
        super().__init__()
        self.data = data or {}

    def join(self, o):
        n = self.clone()
        out = dict(self.data)
        for k, v in o.data.items():
            if k not in out:
                out[k] = v
            elif out[k] != v:
                if isinstance(v, V) and isinstance(out[k], V):
                    out[k] = join(out[k], v)
                elif isinstance(v, frozenset) and isinstance(
                    out[k], frozenset
                ):
                    out[k] = out[k] | v
                else:
                    out[k] = None
        n.data = out
        return n


class State:
    __slots__ = ("heap", "frame", "pc", "path")

    def __init__(self, heap=None, frame=None, pc=E0, path=()):
        self.heap = heap if heap is not None else {}
        self.frame = frame
        self.pc = pc
        # the truths of conditions of known form that hold here
        self.path = path

    def clone(self):
        return State(dict(self.heap), self.frame, self.pc, self.path)

    def assign(self, o):
        self.heap = o.heap
        self.frame = o.frame
        self.pc = o.pc
        self.path = o.path

    def get(self, loc):
        return self.heap[loc]

    def edit(self, loc):
        """a private copy of the object, installed in this state"""
        n = self.heap[loc].clone()
        self.heap[loc] = n
        return n


def join_states(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    path = a.path
    gate = None
    if a.path is not b.path:
        path, gate = split(a.path, b.path)
    saved, GATE[0] = GATE[0], gate
    try:
        return State(join_heaps(a, b), a.frame, a.pc, path)
    finally:
        GATE[0] = saved


def join_heaps(a, b):
    heap = dict(a.heap)
    get = a.heap.get
    for loc, ob in b.heap.items():
        oa = get(loc)
        if oa is ob:
            continue
        if oa is None:
            heap[loc] = ob
        elif type(oa) is type(ob):
            if not oa.same(ob):
                heap[loc] = oa.join(ob)
    return heap


def states_equal(a, b):
    if a is None or b is None:
        return a is b
    if len(a.heap) != len(b.heap):
        return False
    for loc, ob in b.heap.items():
        oa = a.heap.get(loc)
        if oa is None:
            return False
        if oa is not ob and not oa.same(ob):
            return False
    return True


# ---------------------------------------------------------------- angles
RAD = 1.0
DEG = 180.0 / math.pi


def _near(x, y):
    return abs(x - y) <= 1e-9 * max(abs(x), abs(y))


def ang_kind(s):
    """classify an angle scale: 'rad', 'deg', or 'odd'"""
    for k in (1.0, 0.5, 2.0, 0.25):
        if _near(abs(s), k * RAD):
            return "rad"
        if _near(abs(s), k * DEG):
            return "deg"
    return "odd"
