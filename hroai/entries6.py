"""Abstract clients: every value of a small input carries its own mark."""
from . import poly
from .domain import const, prim
from .entries import CORE, MOD, PD, PIPE, PR, entry
from .harness import INF, Gap
from .nparr import R
from .rules_prov import ANY, Role, Un

DATA = CORE + "data.Data"
WP = CORE + "data.WeightedPoints"


def el(h, name, kind="float", **k):
    """a value that can be told from all others"""
    if kind in ("float", "int"):
        k.setdefault("poly", poly.mark(name))
        if k.get("iv"):
            poly.declare(name, k["iv"])
    return h.num(Role(name), lab=(Role(name),), kind=kind, **k)


def rl(spec):
    """marks in a specification are written as strings with a leading @"""
    if isinstance(spec, str) and spec[:1] == "@":
        return Role(spec[1:])
    if isinstance(spec, list):
        return type(spec)(rl(s) for s in spec)
    if isinstance(spec, tuple):
        return tuple(rl(s) for s in spec)
    if isinstance(spec, dict):
        return {k: rl(v) for k, v in spec.items()}
    return spec


def val(h, x, kinds=None):
    if isinstance(x, str) and x[:1] == "@":
        return el(h, x[1:], (kinds or {}).get(x[1], "float"))
    if isinstance(x, list):
        return h.seq([val(h, y, kinds) for y in x])
    if isinstance(x, tuple):
        return h.seq([val(h, y, kinds) for y in x], typ="tuple")
    if isinstance(x, dict):
        return h.dict({k: val(h, y, kinds) for k, y in x.items()})
    return h.val(x)


def lst(h, *xs):
    return h.seq([h.val(x) for x in xs])


def col(c, n=3):
    return [f"@{c}{i}" for i in range(n)]


def call(h, label, f, *args, **kw):
    f = h.get(f) if isinstance(f, str) else f
    r = h.call(label, f, *args, tags={"accepts"}, **kw)
    if r.ret is None:
        raise Gap(f"{label}: never returns")
    return r.ret


def m(h, label, o, name, *args, **kw):
    return call(h, label, h.attr(o, name), *args, **kw)


def exp(h, label, v, spec):
    h.expect(label, v, rl(spec))


def data(h, d, kinds=None, label="Data.from_dict()"):
    return call(h, label, h.attr(h.get(DATA), "from_dict"),
                val(h, d, kinds))


def state(h, label, d, cols, n):
    """columns, rows and size of a container"""
    exp(h, f"{label}: data", h.attr(d, "data"), cols)
    exp(h, f"{label}: n_rows", h.attr(d, "n_rows"), n)
    exp(h, f"{label}: n_cols", h.attr(d, "n_cols"), len(cols))
    exp(h, f"{label}: keys()", call(h, "Data.keys()", h.attr(d, "keys")),
        Un(cols))
    for k, c in cols.items():
        exp(h, f"{label}: ['{k}']", get(h, d, k), c)


def get(h, o, k):
    return m(h, "[]", o, "__getitem__", h.val(k))


def fold(h, v):
    """list of everything an iteration yields"""
    return h.quiet(h.I.ext.builtin("list"), v)


@entry("Data from columns", "prov", "container")
def _(h):
    d = data(h, {"A": col("a"), "B": col("b"), "C": col("c")})
    state(h, "Data.from_dict()", d,
          {"A": col("a"), "B": col("b"), "C": col("c")}, 3)
    for i in range(-1, 3):
        exp(h, f"Data[{i}]", get(h, d, i),
            {"A": f"@a{i % 3}", "B": f"@b{i % 3}", "C": f"@c{i % 3}"})
    exp(h, "Data: in", m(h, "in", d, "__contains__", const("B")), True)
    exp(h, "Data: in", m(h, "in", d, "__contains__", const("D")), False)
    rows = [{"A": f"@a{i}", "B": f"@b{i}", "C": f"@c{i}"} for i in range(3)]
    exp(h, "Data.__iter__()", fold(h, m(h, "Data.__iter__()", d,
                                        "__iter__")), rows)
    exp(h, "Data.rows()", fold(h, m(h, "Data.rows()", d, "rows")), rows)
    for t in ("list", "tuple"):
        T = h.I.ext.builtin(t)
        exp(h, f"Data.rows({t})",
            fold(h, m(h, f"Data.rows({t})", d, "rows", return_type=T)),
            [[f"@a{i}", f"@b{i}", f"@c{i}"] for i in range(3)])
        exp(h, f"Data.rows(keys,{t})",
            fold(h, m(h, f"Data.rows(keys,{t})", d, "rows", lst(h, "C", "A"),
                      return_type=T)),
            [[f"@c{i}", f"@a{i}"] for i in range(3)])
    exp(h, "Data.rows(keys)",
        fold(h, m(h, "Data.rows(keys)", d, "rows", lst(h, "B"))),
        [{"B": f"@b{i}"} for i in range(3)])


@entry("Data parts", "prov", "container")
def _(h):
    d = data(h, {"A": col("a"), "B": col("b"), "C": col("c")})
    s = m(h, "Data.get_slice()", d, "get_slice", lst(h, "A", "C"))
    state(h, "Data.get_slice()", s, {"A": col("a"), "C": col("c")}, 3)
    s = get(h, d, lst(h, "C", "B"))
    state(h, "Data[keys]", s, {"B": col("b"), "C": col("c")}, 3)
    for form in ("list", "nd"):
        for mask in ((True, False, True), (False, False, True),
                     (False,) * 3, (True,) * 3):
            keep = [i for i in range(3) if mask[i]]
            s = get(h, d, h.fixed(form, mask))
            state(h, f"Data[mask {form}]", s, {
                k: [f"@{k.lower()}{i}" for i in keep] for k in "ABC"},
                len(keep))
    state(h, "Data (source of slices)", d,
          {"A": col("a"), "B": col("b"), "C": col("c")}, 3)


@entry("Data growth", "prov", "container")
def _(h):
    d = h.new("Data()", DATA)
    state(h, "Data()", d, {}, 0)
    m(h, "Data.append()", d, "append", const("A"), el(h, "a0"))
    m(h, "Data.append()", d, "append", const("A"), el(h, "a1"))
    state(h, "Data.append()", d, {"A": ["@a0", "@a1"]}, 2)
    m(h, "Data.extend()", d, "extend", const("A"), val(h, ["@a2", "@a3"]))
    state(h, "Data.extend()", d, {"A": col("a", 4)}, 4)
    m(h, "Data.extend(new)", d, "extend", const("B"), val(h, ["@b0"]))
    m(h, "Data.fill()", d, "fill")
    state(h, "Data.fill()", d,
          {"A": col("a", 4), "B": ["@b0", None, None, None]}, 4)
    m(h, "Data.fill(6)", d, "fill", const(6))
    state(h, "Data.fill(6)", d,
          {"A": col("a", 4) + [None] * 2, "B": ["@b0"] + [None] * 5}, 6)


@entry("Data updates", "prov", "container")
def _(h):
    base = {"A": col("a", 2), "B": col("b", 2)}

    def upd(label, new, cols, n, init=base, **kw):
        d = data(h, init) if init is not None else h.new("Data()", DATA)
        m(h, label, d, "update", new, **kw)
        state(h, label, d, cols, n)

    upd("Data.update(dict)", val(h, {"A": ["@x0"], "B": ["@y0"]}),
        {"A": ["@a0", "@a1", "@x0"], "B": ["@b0", "@b1", "@y0"]}, 3)
    upd("Data.update(scalar)", val(h, {"A": "@x0", "B": "@y0"}),
        {"A": ["@a0", "@a1", "@x0"], "B": ["@b0", "@b1", "@y0"]}, 3)
    upd("Data.update(partial)", val(h, {"B": ["@y0", "@y1"]}),
        {"A": ["@a0", "@a1", None, None],
         "B": ["@b0", "@b1", "@y0", "@y1"]}, 4)
    upd("Data.update(new key)", val(h, {"C": ["@z0"]}),
        {"A": ["@a0", "@a1", None], "B": ["@b0", "@b1", None],
         "C": [None, None, "@z0"]}, 3)
    upd("Data.update(uneven)", val(h, {"A": ["@x0", "@x1"], "B": "@y0"}),
        {"A": ["@a0", "@a1", "@x0", "@x1"],
         "B": ["@b0", "@b1", "@y0", None]}, 4)
    upd("Data.update(Data)", data(h, {"B": ["@y0"], "C": ["@z0"]}),
        {"A": ["@a0", "@a1", None], "B": ["@b0", "@b1", "@y0"],
         "C": [None, None, "@z0"]}, 3)
    upd("Data.update(empty)", val(h, {"A": ["@x0"], "B": ["@y0", "@y1"]}),
        {"A": ["@x0", None], "B": ["@y0", "@y1"]}, 2, init=None)
    upd("Data.update(compress)", val(h, {"A": "@x0", "B": "@y0"}),
        {"A": ["@a0", "@a1", "@x0"], "B": ["@b0", "@b1", "@y0"]}, 3,
        compress=True)
    half = {"A": ["@a0", "@a1"], "B": ["@b0", None]}
    upd("Data.update(compress, last entry free)", val(h, {"B": "@y0"}),
        {"A": ["@a0", "@a1"], "B": ["@b0", "@y0"]}, 2, init=half,
        compress=True)
    upd("Data.update(compress, last entry taken)",
        val(h, {"A": "@x0", "B": "@y0"}),
        {"A": ["@a0", "@a1", "@x0"], "B": ["@b0", None, "@y0"]}, 3,
        init=half, compress=True)
    upd("Data.update(no compress)", val(h, {"B": "@y0"}),
        {"A": ["@a0", "@a1", None], "B": ["@b0", None, "@y0"]}, 3, init=half)
    c = call(h, "Data.concatenate()", h.attr(h.get(DATA), "concatenate"),
             h.seq([data(h, {"A": ["@a0"], "B": ["@b0"]}),
                    data(h, {"B": ["@b1", "@b2"]}),
                    data(h, {"A": ["@a3"], "C": ["@c3"]})]))
    state(h, "Data.concatenate()", c,
          {"A": ["@a0", None, None, "@a3"], "B": ["@b0", "@b1", "@b2", None],
           "C": [None, None, None, "@c3"]}, 4)


@entry("Data removal", "prov", "container")
def _(h):
    cols = {"A": col("a", 4), "B": col("b", 4), "C": col("c", 4)}
    d = data(h, cols)
    m(h, "Data.delete(key)", d, "delete", const("B"))
    state(h, "Data.delete(key)", d, {"A": cols["A"], "C": cols["C"]}, 4)
    d = data(h, cols)
    m(h, "Data.delete(keys)", d, "delete", lst(h, "A", "C"))
    state(h, "Data.delete(keys)", d, {"B": cols["B"]}, 4)
    for rows in ([0], [3], [1, 2], [2, 0], [0, 1, 3], [1, 1], [2, 7], [4],
                 [-1, 0], []):
        d = data(h, cols)
        m(h, f"Data.delete({len(rows)} rows)", d, "delete", lst(h, *rows))
        keep = [i for i in range(4) if i not in rows]
        state(h, f"Data.delete({len(rows)} rows)", d,
              {k: [c[i] for i in keep] for k, c in cols.items()}, len(keep))
    for i in (0, 2):
        d = data(h, cols)
        m(h, "Data.delete(row)", d, "delete", const(i))
        state(h, "Data.delete(row)", d, {
            k: [x for j, x in enumerate(c) if j != i]
            for k, c in cols.items()}, 3)
    d = data(h, cols)
    m(h, "Data.rename()", d, "rename", const("B"), const("X"))
    exp(h, "Data.rename(): data", h.attr(d, "data"),
        {"A": cols["A"], "C": cols["C"], "X": cols["B"]})
    m(h, "Data.rename(same)", d, "rename", const("A"), const("A"))
    exp(h, "Data.rename(same): data", h.attr(d, "data"),
        {"A": cols["A"], "C": cols["C"], "X": cols["B"]})


@entry("Data.strip marks", "prov", "container")
def _(h):
    cols = {"A": [None, "@a1", None, "@a3", None],
            "B": [None, None, None, "@b3", None],
            "C": [None] * 5}
    d = data(h, cols)
    m(h, "Data.strip(cols)", d, "strip", const("cols"))
    state(h, "Data.strip(cols)", d, {"A": cols["A"], "B": cols["B"]}, 5)
    d = data(h, cols)
    m(h, "Data.strip(rows)", d, "strip", const("rows"))
    state(h, "Data.strip(rows)", d, {k: c[1:4] for k, c in cols.items()}, 3)
    d = data(h, cols)
    m(h, "Data.strip()", d, "strip")
    state(h, "Data.strip()", d, {"A": cols["A"][1:4], "B": cols["B"][1:4]},
          3)
    d = data(h, {"A": col("a", 2), "B": col("b", 2)})
    m(h, "Data.strip(full)", d, "strip")
    state(h, "Data.strip(full)", d, {"A": col("a", 2), "B": col("b", 2)}, 2)
    d = data(h, {"A": [None] * 3})
    m(h, "Data.strip(None only)", d, "strip", const("rows"))
    state(h, "Data.strip(None only)", d, {"A": []}, 0)


KINDS = {"s": "str", "i": "int"}


@entry("Data types marks", "prov", "container")
def _(h):
    B = h.I.ext.builtin
    fl, st, it = (B(t) for t in ("float", "str", "int"))
    cols = {"A": col("a"), "S": col("s"), "B": col("b"), "I": col("i")}
    d = data(h, cols, KINDS)
    r = m(h, "Data.get_by_type(float)", d, "get_by_type", fl)
    exp(h, "Data.get_by_type(float)", r, [["A", "B"], [col("a"), col("b")]])
    r = m(h, "Data.get_by_type(str)", d, "get_by_type", st)
    exp(h, "Data.get_by_type(str)", r, [["S"], [col("s")]])
    n = h.attr(d, "numerical")
    exp(h, "Data.numerical: keys", get_i(h, n, 0), ["A", "B"])
    num = get_i(h, n, 1)
    exp(h, "Data.numerical[:,0]", h.I.ext.getitem(
        num, h.seq([full(h), const(0)], typ="tuple"), h.st, h.node()),
        col("a"))
    m(h, "Data.filter_types()", d, "filter_types", h.seq([fl, it]))
    exp(h, "Data.filter_types(): data", h.attr(d, "data"),
        {"A": col("a"), "B": col("b"), "I": col("i")})


def get_i(h, v, i):
    return h.I.ext.getitem(v, const(i), h.st, h.node())


def full(h):
    return h.quiet(h.I.ext.builtin("slice"), const(None))


@entry("Data standard format marks", "prov", "container")
def _(h):
    d = data(h, {"Wind Speed": col("a"), "wind_angle": col("b"),
                 "Foo": col("s"), "BSP": col("i")}, KINDS)
    m(h, "Data.hrosailing_standard_format()", d,
      "hrosailing_standard_format")
    exp(h, "Data.hrosailing_standard_format(): n_rows", h.attr(d, "n_rows"),
        3)
    # keys are documented synonyms; a second source gets another name
    dd = h.attr(d, "data")
    for k, c in (("Foo", "s"), ("BSP", "i")):
        exp(h, f"Data.hrosailing_standard_format(): {k}", get(h, d, k),
            col(c))
    del dd


@entry("WeightedPoints marks", "prov", "container")
def _(h):
    for form in ("dict", "Data", "nd"):
        if form == "dict":
            p = val(h, {"A": col("a"), "B": col("b")})
            q = val(h, {"A": col("x", 2), "B": col("y", 2)})
        elif form == "Data":
            p = data(h, {"A": col("a"), "B": col("b")})
            q = data(h, {"A": col("x", 2), "B": col("y", 2)})
        else:
            p = h.arr(("F", R(("fix", 2))), [el(h, f"a{i}")
                                            for i in range(3)])
            q = h.arr(("F", R(("fix", 2))), [el(h, f"x{i}")
                                            for i in range(2)])
        w = call(h, f"WeightedPoints({form})", WP, p,
                 h.fixed("nd", [el(h, f"w{i}") for i in range(3)]))
        w2 = call(h, f"WeightedPoints({form})", WP, q,
                  h.fixed("nd", [el(h, f"v{i}") for i in range(2)]))
        s1 = call(h, f"WeightedPoints({form}, scalar)", WP, p, el(h, "k"))
        exp(h, f"WeightedPoints({form}, scalar): weights",
            h.attr(s1, "weights"), ["@k"] * 3)
        exp(h, f"WeightedPoints({form}): weights", h.attr(w, "weights"),
            col("w"))
        s = get(h, w, h.fixed("nd", [True, False, True]))
        exp(h, f"WeightedPoints({form})[mask]: weights",
            h.attr(s, "weights"), ["@w0", "@w2"])
        points(h, f"WeightedPoints({form})[mask]", form, s,
               {"A": ["@a0", "@a2"], "B": ["@b0", "@b2"]},
               ["@a0", "@a2"])
        m(h, f"WeightedPoints({form}).extend()", w, "extend", w2)
        exp(h, f"WeightedPoints({form}).extend(): weights",
            h.attr(w, "weights"), col("w") + col("v", 2))
        points(h, f"WeightedPoints({form}).extend()", form, w,
               {"A": col("a") + col("x", 2), "B": col("b") + col("y", 2)},
               col("a") + col("x", 2))


def points(h, label, form, w, cols, rows):
    p = h.attr(w, "data")
    if form == "Data":
        p = h.attr(p, "data")
    exp(h, f"{label}: data", p,
        cols if form != "nd" else [[r, r] for r in rows])
