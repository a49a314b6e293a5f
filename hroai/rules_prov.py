"""Provenance: which input element ended up at which place of the output."""
import datetime
import math

from . import domain as D, poly
from .domain import Arr, Bound, Const, Dict, ExtBound, Inst, Loc, Seq, V
from .interp import Bottom
from .rules import Rule, exc_name
from .rules_arg import kinds

ANY = object()


class Role(str):
    """the element of the input that carries this mark"""


class Un(list):
    """a list whose order is not specified"""


class Cols(list):
    """an array given by its columns, whose order is not specified"""


class Lin:
    """the value computed from the marks by a polynomial {mark: factor}

    Keys: None for the constant, a mark, or a tuple of (mark, power)."""

    def __init__(self, terms, rtol=1e-6):
        self.rtol = rtol
        d = {}
        for k, c in terms.items():
            m = () if k is None else ((k[1:], 1),) if isinstance(
                k, str) else tuple(sorted((x[1:], n) for x, n in k))
            d[m] = float(c)
        self.p = poly.freeze(d)
        self.marks = {k for m, _ in self.p for k, _ in m}

    def __repr__(self):
        return poly.show(self.p)

    def check(self, p):
        return None if poly.near(p, self.p, self.rtol) else repr(self)


class Fn(Lin):
    """the value of a function of the marks

    Compared by random interpretation: the form of the analysed value and
    the function get the same numbers for the marks."""
    TRIES = 24

    def __init__(self, fn, *marks, rtol=1e-6, text=None, sure=True):
        self.fn = fn
        self.order = [m[1:] for m in marks]
        # the marks the value cannot be computed without
        self.marks = set(self.order) if sure else set()
        self.rtol = rtol
        self.text = text or f"the documented function of " \
            f"{', '.join(self.order)}"

    def __repr__(self):
        return self.text

    def check(self, p):
        seen = 0
        for k in range(self.TRIES):
            try:
                a, x = poly.value(p, k, {})
                b = self.fn(*[poly.sample(m, k) for m in self.order])
            except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                continue
            seen += 1
            if abs(a - b) > self.rtol * max(1.0, x, abs(b)):
                return repr(self)
        return None


class Near(Lin):
    """a known number up to a tolerance"""

    def __init__(self, x, tol):
        self.x, self.tol, self.marks = float(x), tol, set()

    def __repr__(self):
        return f"about {self.x:g}"

    def check(self, p):
        try:
            a, _ = poly.value(p, 0, {})
        except (ValueError, OverflowError, ZeroDivisionError, TypeError):
            return None
        return None if abs(a - self.x) <= self.tol else repr(self)


class Mean:
    """a weighted mean of these marks (of all of them if `every`)"""

    def __init__(self, marks, every=False, convex=True):
        self.allowed = {m[1:] for m in marks}
        self.marks = self.allowed if every else set()
        self.convex = convex

    def __repr__(self):
        return "a weighted mean of " + ", ".join(sorted(self.allowed))

    def check(self, p):
        r = poly.linear(p)
        if r is None or poly.has_terms(p):
            return None
        cs, k = r
        eps = 1e-6
        if abs(k) > eps or abs(sum(cs.values()) - 1) > eps or set(
                m for m, c in cs.items() if abs(c) > eps) - self.allowed or \
                any(abs(cs.get(m, 0)) < eps for m in self.marks) or \
                self.convex and any(c < -eps for c in cs.values()):
            return repr(self)
        return None


class Dep:
    """some value computed from (at least) these marks"""

    def __init__(self, marks):
        self.marks = {m[1:] for m in marks}

    def __repr__(self):
        return "a value computed from " + ", ".join(sorted(self.marks))


def show(v):
    return repr(v) if not isinstance(v, Role) else str(v)


class Provenance(Rule):
    name = "provenance"
    text = ("abstract inputs of a fixed small shape whose elements all carry "
            "their own mark: each documented place of the output must not "
            "hold a value known to come from elsewhere, a constant, or a "
            "container of another size")

    def __init__(self, prop, pats=()):
        super().__init__(prop)
        self.busy = False
        self.un = 0  # inside a part whose order does not matter

    def on_call(self, h, rec):
        if rec.tags & {"accepts", "ctor"} and not any(
                t.startswith("rejects") for t in rec.tags):
            self.oblige(1, f"{rec.entry}: {rec.label} returns")
            ex = sorted({exc_name(h, k) for k in rec.exc if k != "*"})
            if rec.ret is None and ex:
                self.report(h, "refused", f"{rec.label} never returns "
                            f"({', '.join(ex)})", None)
        for t in rec.tags:
            if t.startswith("rejects:"):
                self.oblige(1, f"{rec.entry}: {rec.label} is refused")
                ex = {exc_name(h, k) for k in rec.exc if k != "*"}
                if any(kinds(h, k) & set(t[8:].split(","))
                       for k in rec.exc if k != "*"):
                    continue
                if rec.ret is not None and not rec.exc:
                    self.report(h, "not refused", f"{rec.label} returns "
                                f"instead of raising {t[8:]}", None)
                elif rec.ret is None and ex and "*" not in rec.exc:
                    self.report(h, "other error", f"{rec.label} raises "
                                f"{', '.join(sorted(ex))} instead of "
                                f"{t[8:]}", None)

    def on_expect(self, h, label, v, spec):
        self.oblige(1, f"{h.entry}: {label}")
        bad = self.match(h, v, spec, "")
        if bad:
            self.report(h, bad[0], f"{label}{bad[1]}", None)

    # every alternative of the value must contradict the specification
    def match(self, h, v, spec, path):
        if spec is ANY or v is None or v.bottom():
            return None
        alts = list(h.I.ext.alts(v))
        bad = None
        for a in alts:
            b = self.match1(h, a, spec, path)
            if b is None:
                return None
            bad = bad or b
        return bad

    def match1(self, h, a, spec, path):
        o = a.single()
        if o is not None:
            hp = h.st.heap.get(o) if isinstance(o, Loc) else None
            if isinstance(hp, Seq):
                return self.seq(h, a, hp, spec, path)
            if isinstance(hp, Dict):
                return self.dict(h, hp, spec, path)
            if isinstance(o, Arr):
                return self.arr(h, a, o, spec, path)
            if isinstance(hp, Inst) and isinstance(hp.tag, tuple) and \
                    hp.tag[:1] == ("nt",) and isinstance(spec, (list, tuple)):
                return self.items([hp.fields[n] for n in hp.tag[1]], h, spec,
                                  path)
            return None
        return self.scalar(a, spec, path)

    def scalar(self, a, spec, path):
        if "unk" in a.prims:
            return None
        if isinstance(spec, (list, tuple, dict)):
            return "shape", f"{path} is a single value"
        role = a.f.get("role")
        fn = a.f.get("fn")
        if fn and isinstance(spec, (Role, Lin, Mean)) and not (
                self.un and fn == "sorted()"):
            return "changed", f"{path} is the result of {fn} instead of {spec}"
        if isinstance(spec, (Lin, Mean)):
            return self.form(a, spec, path)
        if isinstance(spec, Dep):
            return self.depends(a, spec, path)
        if isinstance(spec, Role):
            if a.only_consts():
                return "constant", (f"{path} holds "
                                    f"{sorted(map(repr, a.consts))} instead "
                                    f"of {spec}")
            if isinstance(role, Role) and role != spec:
                return "wrong element", (f"{path} holds {role} instead "
                                         f"of {spec}")
            p = a.f.get("poly")
            if isinstance(role, Role) or p is not None:
                if p is not None and not poly.near(p, poly.mark(spec)):
                    return "changed", (f"{path} is {poly.show(p)} instead "
                                       f"of {spec}")
                return None
            marks = {x for x in a.lab if isinstance(x, Role)}
            if marks and spec not in marks:
                return "wrong element", (
                    f"{path} is computed from {', '.join(sorted(marks))} "
                    f"instead of {spec}")
            return None
        if a.only_consts():
            if any(same(c.v, spec) for c in a.consts):
                return None
            return "constant", (f"{path} is {sorted(map(repr, a.consts))} "
                                f"instead of {spec!r}")
        if isinstance(role, Role) and not any(
                same(c.v, spec) for c in a.consts):
            return "wrong element", (f"{path} holds {role} instead of "
                                     f"{spec!r}")
        if isinstance(spec, (int, float)) and not a.consts:
            iv = D.interval(a)
            if iv is not None and spec == spec and (
                    spec < iv[0] or spec > iv[1]
                    or spec == iv[0] and iv[2] or spec == iv[1] and iv[3]):
                return "constant", f"{path} cannot be {spec!r}"
        return None

    def form(self, a, spec, path):
        p = poly.of(a)
        if p is not None:
            want = spec.check(p)
            if want is not None:
                return "other form", (f"{path} is {poly.show(p)} instead of "
                                      f"{want}")
            return None
        if a.only_consts():
            return "constant", (f"{path} holds "
                                f"{sorted(map(repr, a.consts))} instead of "
                                f"{spec!r}")
        return self.depends(a, spec, path)

    def depends(self, a, spec, path):
        lost = {m for m in spec.marks if m not in a.lab}
        if lost:
            return "other form", (f"{path} does not depend on "
                                  f"{', '.join(sorted(lost))}")
        return None

    def items(self, vs, h, spec, path):
        if isinstance(spec, Un):
            return self.unordered(vs, h, spec, path)
        for i, (x, s) in enumerate(zip(vs, spec)):
            b = self.match(h, x, s, f"{path}[{i}]")
            if b is not None:
                return b
        return None

    def unordered(self, vs, h, spec, path):
        """no assignment of the elements to the specified ones is possible"""
        self.un += 1
        try:
            return self.unordered1(vs, h, spec, path)
        finally:
            self.un -= 1

    def unordered1(self, vs, h, spec, path):
        ok = [[self.match(h, x, s, path) is None for s in spec] for x in vs]
        taken = {}

        def place(i, seen):
            for j, good in enumerate(ok[i]):
                if good and j not in seen:
                    seen.add(j)
                    if j not in taken or place(taken[j], seen):
                        taken[j] = i
                        return True
            return False
        for i in range(len(ok)):
            if not place(i, set()):
                bad = [b for b in (self.match(h, vs[i], s, f"{path}[{i}]")
                                   for s in spec) if b is not None]
                return (bad[0] if len(bad) == len(spec) and len(spec) == 1
                        else ("wrong element", f"{path}: element {i} is not "
                              f"one of the remaining {len(spec)} specified "
                              "ones"))
        return None

    def seq(self, h, a, hp, spec, path):
        if spec is None or isinstance(spec, (Role, Lin, Mean, Dep, str, int, float, dict)):
            if hp.typ in ("list", "tuple", "set"):
                return "shape", f"{path} is a {hp.typ}"
            return None
        n = len(hp.prefix)
        if hp.typ in ("iter", "gen", "slice"):
            return None
        if hp.rest is None and n != len(spec) or n > len(spec):
            return "length", (f"{path} has {n} elements instead of "
                              f"{len(spec)}")
        if hp.typ == "set":
            return None
        return self.items(hp.prefix, h, spec, path)

    def dict(self, h, hp, spec, path):
        if spec is None or isinstance(spec, (Role, Lin, Mean, Dep, str, int,
                                             float)):
            return "shape", f"{path} is a dictionary"
        if not isinstance(spec, dict):
            return None
        have = {k.v for k in hp.items}
        sure = {k.v for k in hp.items if k not in hp.maybe}
        if hp.rk is None and set(spec) - have:
            return "keys", f"{path} lacks {sorted(map(repr, set(spec) - have))}"
        if sure - set(spec):
            return "keys", (f"{path} holds "
                            f"{sorted(map(repr, sure - set(spec)))}")
        for k, s in spec.items():
            if Const(k) in hp.items:
                b = self.match(h, hp.items[Const(k)], s, f"{path}[{k!r}]")
                if b is not None:
                    return b
        return None

    def arr(self, h, a, o, spec, path):
        ext = h.I.ext
        if not o.axes:
            return self.scalar(ext.desc(a, h.st, h.node()).all(), spec, path)
        if not isinstance(spec, (list, tuple)):
            if spec is None or isinstance(spec, (Role, Lin, Mean, Dep, str, int,
                                                 float)):
                return "shape", f"{path} is an array"
            return None
        ln = ext.axis_len(o, o.axes[0], h.st)
        if not ln.is_const():
            return None
        n = ln.const()
        st = h.st.clone()
        if isinstance(spec, Cols):
            a = h.quiet_do(lambda: ext.arr_attr(o, "T", st, h.node()))
            o = a.single()
            if not isinstance(o, Arr) or len(o.axes) < 2:
                return None
            ln = ext.axis_len(o, o.axes[0], st)
            if not ln.is_const():
                return None
            n = ln.const()
            spec = Un(spec)
        if n != len(spec):
            return "length", f"{path} has {n} elements instead of {len(spec)}"
        vs = []
        for i in range(n):
            try:
                vs.append(h.quiet_do(
                    lambda: ext.getitem(a, D.const(i), st, h.node())))
            except Bottom:
                return None
        keep = h.st
        h.st = st
        try:
            return self.items(vs, h, spec, path)
        finally:
            h.st = keep


def same(c, spec):
    if isinstance(c, bool) != isinstance(spec, bool):
        return False
    if isinstance(c, (int, float)) and isinstance(spec, (int, float)):
        if isinstance(c, int) and isinstance(spec, int):
            return c == spec
        # the order of the operations is not documented
        return c == spec or math.isclose(c, spec, rel_tol=1e-10,
                                         abs_tol=1e-12)
    if type(c) is datetime.datetime and type(spec) is datetime.datetime and \
            (c.tzinfo is None) == (spec.tzinfo is None):
        return abs(c - spec) <= datetime.timedelta(microseconds=2)
    return type(c) is type(spec) and c == spec
