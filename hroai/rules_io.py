"""Rules about files: what is written is what is read back."""
from .domain import Arr, Dict, Func, Inst, Loc, Seq, V
from .harness import Gap
from .rules import Rule, exc_name


def norm_space(sp):
    """sorting twice is sorting once; None when the origin is not known"""
    if not isinstance(sp, tuple):
        return None
    if sp[0] == "sorted":
        x = norm_space(sp[1])
        return None if x is None else x if x[0] == "sorted" else \
            ("sorted", x)
    if sp[0] in ("root", "mcol", "mrow"):
        return sp
    if sp[0] == "slice":
        x = norm_space(sp[1])
        return None if x is None else ("slice", x, sp[2])
    if sp[0] in ("flip",):
        x = norm_space(sp[1])
        return None if x is None else (sp[0], x)
    return None


def root(sp):
    while sp[0] in ("sorted", "flip"):
        sp = sp[1]
    return sp


class RoundTrip(Rule):
    name = "round-trip"
    text = ("every value written by a writer is followed through the text "
            "of the file into the reader; the object read back has the same "
            "class and its attributes hold the quantities of the original, "
            "unrounded and in the original order")

    def begin(self, h, entry):
        self.tags = entry.tags

    busy = False

    def on_event(self, h, kind, node, data):
        if self.busy or h.cur is None or not ({"rt-read", "rt-write"} & h.cur.tags):
            return
        if kind == "csv-delim":
            self.report(h, "delimiter",
                        f"records written with delimiter {data['wrote']!r} "
                        f"are read with {data['read']!r}", node)
        elif kind == "fmt-mismatch":
            self.report(h, "time format",
                        f"times written as {data['wrote']!r} are read as "
                        f"{data['read']!r}", node)
        elif kind == "fmt-lossy":
            self.report(h, "time precision",
                        f"times are written without {data['lost']}", node)
        elif kind == "space-mismatch" and "rt-read" in h.cur.tags:
            a, b = norm_space(data["a"]), norm_space(data["b"])
            if a is not None and b is not None and root(a) != root(b):
                self.report(h, "pairing", "entries of different sequences "
                            "are paired while reading", node)

    def on_call(self, h, rec):
        if "rt-write" in rec.tags:
            self.oblige(1, f"{rec.entry}: {rec.label} writes")
            if rec.ret is None:
                self.report(h, "write",
                            f"{rec.label}: writing always fails with "
                            f"{self.excs(h, rec)}")
            return
        if "rt-read" not in rec.tags:
            return
        self.oblige(1, f"{rec.entry}: {rec.label} reads its own file")
        if rec.ret is None:
            self.report(h, "read",
                        f"{rec.label}: reading the written file back always "
                        f"fails with {self.excs(h, rec)}")
            return
        rt = h.rt
        a = self.cls(h, rt["orig"])
        b = self.cls(h, rec.ret)
        self.oblige(1, f"{rec.entry}: {rec.label} has the original class")
        if a and b and not (a & b):
            self.report(h, "class", f"{rec.label}: another class is read "
                                    "back")
            return
        self.busy = True
        try:
            self.props(h, rec, rt["props"], rt["orig"], rec.ret, "")
        finally:
            self.busy = False

    def excs(self, h, rec):
        return ", ".join(sorted({exc_name(h, k) for k in rec.exc
                                 if k != "*"})) or "an exception"

    def cls(self, h, v):
        out = set()
        for o in v.objs:
            hp = h.st.heap.get(o) if isinstance(o, Loc) else None
            if not isinstance(hp, Inst):
                return None
            out.add(hp.cls)
        return out if not (v.prims or v.consts) else None

    def props(self, h, rec, props, orig, read, pre):
        for p, exp in props.items():
            try:
                x = h.attr(read, p)
                y = h.attr(orig, p)
            except Gap:
                continue
            if x is None or y is None:
                continue
            nm = pre + p
            self.oblige(1, f"{rec.entry}: {rec.label}: {nm} survives")
            if exp[0] == "same":
                self.same(h, rec, nm, x, y)
            elif exp[0] == "sub":
                self.sub(h, rec, nm, x, y, exp[1])
            else:
                self.values(h, rec, nm, x, y, exp)

    def items(self, h, v):
        hp = h.st.heap.get(v.single())
        if isinstance(hp, Seq) and hp.rest is None:
            return list(hp.prefix)
        return None

    def sub(self, h, rec, nm, x, y, exps):
        a, b = self.items(h, x), self.items(h, y)
        if a is None or b is None:
            return
        if len(a) != len(b):
            self.report(h, nm, f"{rec.label}: {len(b)} {nm} are written but "
                               f"{len(a)} read")
            return
        for i, (u, v) in enumerate(zip(a, b)):
            self.props(h, rec, exps[i], v, u, f"{nm}[{i}].")

    def same(self, h, rec, nm, x, y):
        a, b = self.items(h, x), self.items(h, y)
        if a is not None and b is not None:
            if len(a) != len(b):
                self.report(h, nm, f"{rec.label}: {nm} has another length")
                return
            for u, v in zip(a, b):
                self.same(h, rec, nm, u, v)
            return
        if "unk" in x.prims or x.prims & y.prims:
            return
        if x.consts & y.consts or x.objs & y.objs:
            return
        if x.only_consts() and y.only_consts() or (
            x.objs and y.objs and all(
                isinstance(h.st.heap.get(o), Func)
                for o in x.objs | y.objs)
        ):
            self.report(h, nm, f"{rec.label}: {nm} is another one after "
                               "reading")

    def values(self, h, rec, nm, x, y, exp):
        node = h.node("rt")
        d = h.I.ext.desc(x, h.st, node)
        o = h.I.ext.desc(y, h.st, node)
        roles, labs = exp
        if isinstance(roles, tuple):
            vs = list(d.fields or [])
            if d.fields is None and d.elem is not None:
                vs = [d.elem] * len(roles)
            if d.fields is not None and len(vs) != len(roles) and \
                    d.rest is None:
                self.report(h, f"{nm} columns",
                            f"{rec.label}: {nm} has {len(vs)} entries after "
                            f"reading instead of {len(roles)}")
                return
        else:
            roles, labs = (roles,), (labs,)
            vs = [d.all()]
        for v, r, lab in zip(vs, roles, labs):
            if v is None or v.bottom():
                continue
            have = h.I.deep_labels(v, h.st)
            if "FILE" in have:
                continue
            got = v.f.get("role")
            if got is not None and got != r and r is not None:
                self.report(h, f"{nm} holds {got}",
                            f"{rec.label}: {nm} holds {got} instead of {r} "
                            "after reading")
            elif lab not in have and not (
                "unk" in v.prims and not have
            ):
                self.report(h, f"{nm} lost",
                            f"{rec.label}: {nm} does not depend on the "
                            f"values that were written ({r})")
            if "LIT" in have and d.axes and not h.rt.get("lit"):
                self.report(h, f"{nm} literal",
                            f"{rec.label}: {nm} may hold text that is not "
                            "part of the data (a heading or filler)")
            if v.f.get("mix") and got is None:
                self.report(h, f"{nm} mixed",
                            f"{rec.label}: {nm} mixes "
                            + ", ".join(sorted(v.f["mix"])))
            if v.f.get("trunc"):
                self.report(h, f"{nm} rounded",
                            f"{rec.label}: {nm} ({r}) comes back rounded")
        if len(d.axes) == len(o.axes):
            for a, b in zip(d.axes, o.axes):
                if not (isinstance(a, tuple) and isinstance(b, tuple)):
                    continue
                sa, sb = norm_space(a[1]), norm_space(b[1])
                if sa is not None and sb is not None and sa != sb and \
                        "m" not in root(sa)[0] + root(sb)[0]:
                    self.report(h, f"{nm} order",
                                f"{rec.label}: {nm} comes back in another "
                                "order or shape")
