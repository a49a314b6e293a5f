"""Rules: decide properties from the events and results of the analysis.

Every rule alarms only on positive evidence (a tracked location written, a
tracked label/facet arriving at a sink, an operation that cannot return...);
whatever the analysis does not know never raises an alarm.
"""
import re

from . import domain as D
from .domain import (
    E0, Arr, Bound, Buf, Class, Const, Dict, Ext, ExtBound, File, Frame, Func,
    Ghost, Inst, Loc, Module, Opaque, Seq, V, join, joinall,
)


def op_of(label):
    return re.split(r"[(\[#]", label)[0].strip()


class Finding:
    __slots__ = ("prop", "rule", "op", "detail", "msg", "file", "func",
                 "line", "trail", "entry")

    def key(self):
        return f"{self.rule}|{self.op}|{self.detail}"

    def as_dict(self):
        return {k: getattr(self, k) for k in self.__slots__} | {
            "key": self.key()}


class Rule:
    """base class; `obligations` counts decided proof obligations"""

    name = "rule"
    text = ""

    def __init__(self, prop):
        self.prop = prop
        self.findings = {}
        self.obligations = 0
        self.samples = []

    def oblige(self, n=1, sample=None):
        self.obligations += n
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def report(self, h, detail, msg, node=None, op=None):
        f = Finding()
        f.prop = self.prop
        f.rule = self.name
        f.op = op or (op_of(h.cur.label) if h.cur is not None else "import")
        f.detail = detail
        f.msg = msg
        if node is not None:
            f.file, f.func, f.line = h.I.where(node)
            f.trail = h.I.trail()
        elif h.path:
            f.file, _, f.line = h.I.where(h.path[0].node)
            f.func = h.path[0].qualname
            f.trail = " -> ".join(i.qualname for i in h.path)
        else:
            f.file = f.func = "?"
            f.line = 0
            f.trail = ""
        f.entry = h.entry
        self.findings.setdefault(f.key(), f)


def mutable(hp):
    if isinstance(hp, Buf):
        return True
    if isinstance(hp, Dict):
        return True
    if isinstance(hp, Seq):
        return hp.typ in ("list", "set", "deque")
    return False


def kind_name(hp):
    if isinstance(hp, Buf):
        return "array"
    if isinstance(hp, Dict):
        return "dict"
    if isinstance(hp, Seq):
        return hp.typ
    return "object"


# --------------------------------------------------- history independence
class History(Rule):
    name = "history"
    text = ("two-run non-interference: nothing derived from the first "
            "operation's input reaches the results, statistics or "
            "control decisions of the second operation")

    def on_call(self, h, rec):
        if "second" not in rec.tags or rec.post is None:
            return
        self.oblige(1, f"{rec.entry}: {rec.label} ignores call 1")
        if "A1" in h.I.deep_labels(rec.ret, rec.post):
            self.report(h, "", f"the result of {rec.label} depends on an "
                               "earlier, unrelated input")


# ------------------------------------------------------------- atomicity
class Atomic(Rule):
    name = "partial-update"
    text = ("in the state of every explicit raise of an update operation "
            "nothing derived from the rejected input is stored in the "
            "receiver (taint of the new values)")

    def on_call(self, h, rec):
        if "update" not in rec.tags or rec.recv is None:
            return
        if "NEW" in h.I.deep_labels(rec.recv, rec.pre):
            return
        for key, st in rec.exc.items():
            if key == "*":
                continue
            self.oblige(1, f"{rec.entry}: {rec.label}: unchanged when it "
                           f"raises {exc_name(h, key)}")
            if "NEW" in h.I.deep_labels(rec.recv, st):
                self.report(h, exc_name(h, key),
                            f"{rec.label} raises {exc_name(h, key)} after "
                            "it has already stored part of the input")


def exc_name(h, key):
    if key == "*":
        return "an implicit exception"
    if key[0] == "b":
        return key[1]
    hp = h.st.heap.get(key[1])
    info = getattr(hp, "info", None)
    return getattr(info, "name", None) or str(key[1])


# ------------------------------------------------------------ ownership
class InputsUnmodified(Rule):
    name = "input-write"
    text = ("no write event reaches a heap location owned by the caller "
            "(alias analysis through views, containers and attributes)")

    def before_call(self, h, rec):
        n = 0
        for v in list(rec.args) + list(rec.kw.values()):
            n += sum(1 for l in h.reach(v) if l in h.owned)
        if n:
            self.oblige(n, f"{rec.entry}: {rec.label}: {n} caller objects")

    def on_event(self, h, kind, node, data):
        if kind != "write" or h.phase != "call" or h.cur is None:
            return
        loc = data["loc"]
        nm = h.owned.get(loc)
        if nm is None or "inplace-call" in h.cur.tags:
            return
        self.report(
            h, nm, f"writes into the caller's `{nm}` ({data['what']}) "
            f"during {h.cur.label}", node)


class Observer(Rule):
    name = "observer-write"
    text = ("no write event reaches a heap location belonging to an object "
            "that only update operations may change")

    def before_call(self, h, rec):
        if h.watch:
            self.oblige(1, f"{rec.entry}: {rec.label}: "
                           f"{len(h.watch)} watched locations")

    def on_event(self, h, kind, node, data):
        if kind != "write" or h.phase != "call" or h.cur is None:
            return
        nm = h.watch.get(data["loc"])
        if nm is None:
            return
        f = data.get("field")
        if isinstance(f, str) and f.startswith("_") and data.get(
            "old"
        ) is None and isinstance(h.st.heap.get(data["loc"]), Inst):
            return  # a new private field (cache): invisible by itself
        old, new = data.get("old"), data.get("value")
        if old is not None and new is not None and old == new:
            return
        self.report(h, nm, f"{h.cur.label} changes {nm} ({data['what']})",
                    node)


class Exposure(Rule):
    """representation captured from / exposed to the caller"""

    name = "alias"
    text = ("no mutable array/list/dict is reachable both from an object's "
            "state and from a caller-visible argument or result")

    def __init__(self, prop, classes):
        super().__init__(prop)
        self.classes = classes

    def begin(self, h, entry):
        self.h = h

    def boundary(self, h, st, root):
        pd = self.pd(h)

        def through(hp):
            if isinstance(hp, Inst) and hp is not root:
                return not any(self.is_a(h, hp.cls, c) for c in pd)
            return True

        return through

    def pd(self, h):
        out = getattr(h, "_exposure_cls", None)
        if out is None:
            out = [c for c in (h.cls_of(p) for p in self.classes)
                   if c is not None]
            h._exposure_cls = out
        return out

    def is_a(self, h, cls, base):
        if cls is None:
            return False
        try:
            return base in h.I.mro(cls, h.st)
        except Exception:
            return False

    def relevant(self, h, v, st):
        outs = []
        for o in v.objs:
            hp = st.heap.get(o) if isinstance(o, Loc) else None
            if isinstance(hp, Inst) and any(
                self.is_a(h, hp.cls, c) for c in self.pd(h)
            ):
                outs.append(o)
        return outs

    def state(self, h, o, st):
        """mutable locations of the representation of object `o`"""
        hp = st.heap[o]
        return {l for l in h.reach(D.obj(o), st,
                                   self.boundary(h, st, hp))
                if l != o and mutable(st.heap.get(l))}

    def vis(self, h, v, st):
        return {l for l in h.reach(v, st, self.boundary(h, st, None))
                if mutable(st.heap.get(l))}

    def shared(self, h, rec, st, loaded):
        """containers of the module or class in the result of the call"""
        if rec.ret is None or not loaded:
            return
        own = {o for o in rec.ret.objs if isinstance(st.heap.get(o), Inst)}

        def through(hp):
            # what an object keeps to itself is not part of the result
            return not isinstance(hp, Inst) or self.record(h, hp)

        self.oblige(1, f"{rec.entry}: {rec.label}: returns own values")
        for l in h.reach(rec.ret, st, through):
            hp = st.heap.get(l)
            if l in loaded and l not in own and mutable(hp) \
                    and not isinstance(hp, Inst):
                self.report(
                    h, "returns global", f"{rec.label}: the result contains "
                    f"a mutable {kind_name(hp)} ({l}) that belongs to the "
                    "module or class and so to every other result")

    def record(self, h, hp):
        """named tuples are plain results, all their fields are public"""
        c = h.st.heap.get(hp.cls)
        return getattr(c, "flavour", None) in ("namedtuple", "dataclass")

    def on_call(self, h, rec):
        if rec.post is None:
            return
        st = rec.post
        made = self.relevant(h, rec.ret, st)
        recv = self.relevant(h, rec.recv, st) if rec.recv is not None else []
        argl = {}
        for a in list(rec.args) + list(rec.kw.values()):
            if rec.recv is not None and a.objs & rec.recv.objs:
                continue
            for l in self.vis(h, a, rec.pre):
                argl[l] = h.owned.get(l, "argument")
        loaded = getattr(h, "loaded", frozenset())
        for o in made + recv:
            s = self.state(h, o, st)
            self.oblige(1, f"{rec.entry}: {rec.label}: captures nothing")
            for l in s & set(argl):
                if rec.pre.heap.get(l) is None:
                    continue
                if o in recv and l in self.state(h, o, rec.pre):
                    continue
                self.report(
                    h, "captures " + argl[l],
                    f"{rec.label}: the object keeps a reference to the "
                    f"caller's {kind_name(st.heap[l])} `{argl[l]}`")
            if o in made:
                for l in s & loaded:
                    self.report(
                        h, "shares global", f"{rec.label}: the new object "
                        f"shares a mutable {kind_name(st.heap[l])} "
                        f"({l}) with every other object")
        self.shared(h, rec, st, loaded)
        for o in recv:
            if "view" in rec.tags:
                continue  # documented access to the live column
            s = self.state(h, o, st)
            self.oblige(1, f"{rec.entry}: {rec.label}: exposes nothing")
            r = set()
            if rec.ret is not None:
                mk = [x for x in made if x != o]
                r = self.vis(h, rec.ret, st)
                for x in mk:
                    r |= self.state(h, x, st)
            for l in s & r:
                self.report(
                    h, "exposes", f"{rec.label}: the result shares a "
                    f"mutable {kind_name(st.heap[l])} with the object")



def column(h, v, st, node, col=None):
    """abstract value of column `col` (of all elements if None)"""
    d = h.I.ext.desc(v, st, node)
    if col is not None and d.axes and d.axes[-1] == "F":
        if d.fields is not None and col < len(d.fields):
            return d.fields[col]
        return d.rest
    return d.all()


def unit_of(v):
    """the unit of the tracked angle `v`, None if it is not known"""
    if v is None or v.f.get("ang") is None or v.objs:
        return None
    return {D.RAD: "rad", D.DEG: "deg"}.get(v.f["ang"])


# --------------------------------------------------------------- angles
class Angles(Rule):
    name = "angle-unit"
    text = ("degree/radian scale of every tracked angle: trigonometric "
            "functions get radians, conversions get the unit they convert "
            "from, no sum/comparison mixes units")

    def on_event(self, h, kind, node, data):
        if h.phase != "call":
            return
        if kind == "opaque-call":
            self.expected(h, node, data)
        if kind == "trig":
            self.oblige()
            if data.get("ang") in ("deg", D.DEG):
                self.report(h, f"{data['fn']} of degrees",
                            f"{data['fn']} applied to an angle in degrees",
                            node)
        elif kind == "ang-conv":
            self.report(h, f"{data.get('fn', 'conversion')} of "
                           f"{data.get('ang', 'converted angle')}",
                        "conversion applied to an angle that already has "
                        "the target unit", node)
        elif kind in ("ang-mix", "ang-const"):
            a, b = data.get("a"), data.get("b")
            self.report(h, f"{kind} {a} {b}",
                        f"angles in different units are combined ({a}, {b})",
                        node)

    def expected(self, h, node, data):
        """unit promised to a user-supplied callable or component"""
        hp = data["st"].heap.get(data["loc"])
        exp = getattr(getattr(hp, "contract", None), "expects", None)
        if not exp:
            return
        for (meth, i), (what, unit) in exp.items():
            if meth != data["method"]:
                continue
            a = data["args"]
            v = a.pos[i] if len(a.pos) > i else None
            if v is None:
                continue
            self.oblige()
            got = unit_of(column(h, v, data["st"], node,
                                 1 if what == "ang1" else None))
            bad = {"rad": "deg", "deg": "rad"}[unit]
            if got == bad:
                self.report(h, f"{data['name']} gets {bad}",
                            f"`{data['name']}` works in {unit} but is "
                            f"called with an angle in {bad}", node)
