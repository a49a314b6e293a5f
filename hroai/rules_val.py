"""Rules about the meaning of values: wind angles, columns, alignment."""
import re

from . import domain as D
from .domain import Arr, Buf, Dict, Inst, Loc, Opaque, Seq, V
from .rules import Rule, column, exc_name


def parts(h, v, st):
    """(value, description) of everything stored in the heap below `v`"""
    for l in h.reach(v, st):
        hp = st.heap.get(l)
        if isinstance(hp, Inst):
            for k, x in hp.fields.items():
                yield x, f"attribute {k}"
        elif isinstance(hp, Seq):
            for x in hp.prefix:
                yield x, hp.typ
            if hp.rest is not None:
                yield hp.rest, hp.typ
        elif isinstance(hp, Dict):
            for x in hp.items.values():
                yield x, "dict"
            if hp.rv is not None:
                yield hp.rv, "dict"
        elif isinstance(hp, Buf):
            for x in (hp.fields or []):
                yield x, "array"
            for x in (hp.elem, hp.rest):
                if x is not None:
                    yield x, "array"


def raw_angle(v):
    return v is not None and v.f.get("raw") and \
        v.f.get("role") in ("WA", "AWA")


PDC = "hrosailing.polardiagram.PolarDiagram"


class Normalised(Rule):
    """wind angles denote directions: representatives are taken mod 360"""

    name = "angle-range"
    text = ("a wind angle given by the caller is tracked as `un-normalised` "
            "until it is reduced modulo a full turn; it must be reduced "
            "before it is stored, compared with stored angles or handed to "
            "a model function, an interpolator or a neighbourhood")

    def diagram(self, h, v):
        c = h.cls_of(PDC)
        for o in v.objs:
            hp = h.st.heap.get(o) if isinstance(o, Loc) else None
            if isinstance(hp, Inst) and c is not None:
                try:
                    if c in h.I.mro(hp.cls, h.st):
                        return True
                except Exception:
                    pass
        return False

    def on_event(self, h, kind, node, data):
        if h.phase != "call" or h.cur is None or "pd" not in self.tags:
            return
        if kind == "opaque-call":
            self.consumer(h, node, data)
        elif kind == "raw-compare":
            self.report(h, "comparison",
                        "a wind angle outside one turn is compared with "
                        "normalised wind angles", node)

    def begin(self, h, entry):
        self.tags = entry.tags

    def consumer(self, h, node, data):
        a = data["args"].pos
        st = data["st"]
        nm, m = data["name"], data["method"]
        if m is None and nm == "f" and len(a) > 1:
            what = [column(h, a[1], st, node)]
        elif m == "interpolate" and len(a) > 1:
            d = h.I.ext.desc(a[1], st, node)
            what = [d.fields[1]] if d.fields and len(d.fields) > 1 else []
        elif m == "is_contained_in" and a:
            return  # differences of angles
        else:
            return
        for v in what:
            self.oblige(1, f"{h.entry}: {nm} gets normalised angles")
            if raw_angle(v):
                self.report(h, f"{nm} gets un-normalised angle",
                            f"`{nm}` is called with a wind angle that was "
                            "not reduced to one turn", node)

    def on_call(self, h, rec):
        if rec.post is None or "pd" not in self.tags:
            return
        objs = []
        if rec.recv is not None and self.diagram(h, rec.recv):
            objs.append((rec.recv, "the diagram"))
        if self.diagram(h, rec.ret):
            objs.append((rec.ret, "the new diagram"))
        elif not any(raw_angle(v) for a in
                     list(rec.args) + list(rec.kw.values())
                     for v in [a] + [x for x, _ in parts(h, a, rec.pre)]):
            # (results may repeat the angles that were asked for)
            objs.append((rec.ret, "the result"))
        for o, nm in objs:
            self.oblige(1, f"{rec.entry}: {rec.label}: angles of {nm} lie "
                           "in one turn")
            bad = [d for v, d in parts(h, o, rec.post) if raw_angle(v)]
            if bad:
                self.report(h, f"{nm} {bad[0]}",
                            f"{rec.label}: {nm} holds wind angles that were "
                            "not reduced to one turn")


# --------------------------------------------------------------- columns
ROWS3 = ("WS", "WA", "BSP")
KEYROLE = {"TWS": "WS", "TWA": "WA", "AWS": "AWS", "AWA": "AWA",
           "BSP": "BSP", "lat": "LAT", "lon": "LON", "UGRID": "U",
           "VGRID": "Vv"}
D_ = r"^(table|cloud|curve|curve-rad|multisails)"
# documented meaning of results: a role, a tuple of column roles (rows of a
# table) or ("slices", roles)
RESULTS = [
    (re.compile(D_ + r"\.wind_speeds$"), "WS"),
    (re.compile(D_ + r"\.wind_angles$"), "WA"),
    (re.compile(D_ + r"\.boat_speeds$"), "BSP"),
    (re.compile(D_ + r"\.default_slices$"), "WS"),
    (re.compile(D_ + r"(\.symmetrize\(\))?\(ws, wa"), "BSP"),
    (re.compile(D_ + r"\.(default_points|points)$"), ROWS3),
    (re.compile(D_ + r"\.get_points"), ROWS3),
    (re.compile(D_ + r"(\.symmetrize\(\))?\.(get_slices|ws_to_slices)"
                r"(?!\(full)"), ("slices", ROWS3)),
    (re.compile(r"^convert_apparent_wind_to_true"), ("WS", "WA", "BSP")),
    (re.compile(r"^convert_true_wind_to_apparent"), ("AWS", "AWA", "BSP")),
    (re.compile(r"\.lat_lon\("), ("LAT", "LON")),
    (re.compile(r"\.interpolate"), "BSP"),
]
# roles of what user-supplied components are given:
# (component, method) -> {argument index: roles}
SINKS = {
    ("f", None): {0: "WS", 1: "WA"},
    ("interpolator", "interpolate"): {1: ("WS", "WA")},
    ("neighbourhood", "is_contained_in"): {0: ("WS", "WA")},
    ("sampler", "sample"): {0: ROWS3},
    ("regressor", "fit"): {0: ROWS3},
    ("weather model", "get_weather"): {0: (None, "LAT", "LON")},
    ("m1", "get_weather"): {0: (None, "LAT", "LON")},
    ("m2", "get_weather"): {0: (None, "LAT", "LON")},
}


def elements(v, st):
    out = []
    for o in v.objs:
        hp = st.heap.get(o) if isinstance(o, Loc) else None
        if isinstance(hp, Seq):
            out += list(hp.prefix) + ([hp.rest] if hp.rest is not None
                                      else [])
    return out


def role(v):
    return None if v is None or v.objs else v.f.get("role")


class Columns(Rule):
    name = "column-role"
    text = ("every tracked number carries the quantity it stands for (wind "
            "speed, wind angle, boat speed, apparent wind, latitude, "
            "longitude); sums and comparisons stay inside one quantity; "
            "columns of results, keys of records and arguments of "
            "components hold the documented quantity")

    # quantities that may be added/compared: headings and wind directions
    ANG = {"HDG", "WA", "WDIR", "AWA"}

    def roles_of(self, h, v, st, node, exp):
        d = h.I.ext.desc(v, st, node)
        if isinstance(exp, str):
            return [(exp, role(d.all()), "value")]
        out = []
        if d.axes and d.axes[-1] == "F" and d.fields is not None:
            for i, e in enumerate(exp):
                if i < len(d.fields) and e is not None:
                    out.append((e, role(d.fields[i]), f"column {i}"))
        return out

    def on_event(self, h, kind, node, data):
        if h.phase != "call" or h.cur is None:
            return
        if kind == "role-mix":
            a, b = data["a"], data["b"]
            self.oblige()
            if a in self.ANG and b in self.ANG or re.match(
                    r"P\d", a) and re.match(r"P\d", b):
                return
            self.report(h, f"mix {min(a, b)} {max(a, b)}",
                        f"quantities {a} and {b} are combined", node)
        elif kind == "return":
            self.returned(h, node, data)
        elif kind == "opaque-call":
            exp = SINKS.get((data["name"], data["method"]))
            if exp is None:
                return
            a = data["args"].pos
            for i, e in exp.items():
                if i >= len(a):
                    continue
                for want, got, where in self.roles_of(
                        h, a[i], data["st"], node, e):
                    self.oblige(1, f"{h.entry}: {data['name']} {where} is "
                                   f"{want}")
                    if got is not None and got != want:
                        self.report(
                            h, f"{data['name']} {where} {got}",
                            f"`{data['name']}` expects {want} in {where} "
                            f"of argument {i} but gets {got}", node)

    def returned(self, h, node, data):
        """every single return of an evaluation is a boat speed"""
        i = data["info"]
        if i.name != "__call__" or not i.mod.name.startswith(
            "hrosailing.polardiagram"
        ) or "." not in i.qualname:
            return
        g = role(h.I.ext.desc(data["value"], data["st"], node).all())
        self.oblige()
        if g is not None and g != "BSP":
            self.report(h, f"returns {g}", f"the evaluation returns {g} "
                        "instead of a boat speed", node)

    def on_call(self, h, rec):
        if rec.post is None:
            return
        st = rec.post
        n = h.node("role")
        for rx, exp in RESULTS:
            if not rx.search(rec.label):
                continue
            if exp[0] == "slices":
                vals = elements(rec.ret, st)
                if "get_slices" in rec.label:
                    vals = elements(vals[1], st) if len(vals) == 2 else []
                got = []
                for v in vals:
                    d = h.I.ext.desc(v, st, n)
                    if d.rank == 2 and d.axes[0] == "F" and \
                            d.fields is not None:
                        got += [(e, role(x), f"row {i}") for i, (e, x) in
                                enumerate(zip(exp[1], d.fields))]
            else:
                got = self.roles_of(h, rec.ret, st, n, exp)
            for want, g, where in got:
                self.oblige(1, f"{rec.entry}: {rec.label}: {where} of the "
                               f"result is {want}")
                if g is not None and g != want:
                    self.report(h, f"result {where} {g}",
                                f"{rec.label}: {where} of the result is "
                                f"{g}, not {want}")
        roots = [rec.ret] + ([rec.recv] if rec.recv is not None else [])
        for r in roots:
            for l in h.reach(r, st):
                hp = st.heap.get(l)
                if not isinstance(hp, Dict):
                    continue
                for k, v in hp.items.items():
                    want = KEYROLE.get(k.v)
                    if want is None:
                        continue
                    g = role(h.I.ext.desc(v, st, n).all())
                    self.oblige()
                    if g is not None and g != want:
                        self.report(h, f"key {k.v} {g}",
                                    f"{rec.label}: `{k.v}` holds {g}, not "
                                    f"{want}")
