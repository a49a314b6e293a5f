"""Abstract clients: rows stay rows (containers on exact grids, components).
"""
from .domain import const
from .entries import CORE, MOD, PD, PIPE, PR, entry
from .entries6 import (
    DATA, WP, call, col, data, el, exp, get, lst, m, state, val,
)
from .entries7 import arr, grids
from .rules_prov import ANY, Cols, Un
from .harness import Gap


@entry("Data parts with gaps", "prov", "container")
def _(h):
    grids(h)
    cols = {"A": ["@a0", None, "@a2", None], "B": [None, "@b1", "@b2", None]}
    d = data(h, cols)
    state(h, "Data.from_dict(gaps)", d, cols, 4)
    for mask in ((True, True, False, True), (False, True, False, True)):
        keep = [i for i in range(4) if mask[i]]
        for form in ("list", "nd"):
            s = get(h, d, h.fixed(form, mask))
            state(h, f"Data[mask {form}] (gaps)", s,
                  {k: [c[i] for i in keep] for k, c in cols.items()},
                  len(keep))
    d2 = data(h, cols)
    m(h, "Data.delete(row, gaps)", d2, "delete", lst(h, 1))
    state(h, "Data.delete(row, gaps)", d2,
          {k: [c[i] for i in (0, 2, 3)] for k, c in cols.items()}, 3)
    d2 = data(h, cols)
    m(h, "Data.update(gaps)", d2, "update", val(h, {
        "A": [None, "@x1"], "C": [None, "@z1"]}))
    state(h, "Data.update(gaps)", d2, {
        "A": cols["A"] + [None, "@x1"], "B": cols["B"] + [None] * 2,
        "C": [None] * 5 + ["@z1"]}, 6)
    c = call(h, "Data.concatenate(gaps)", h.attr(
        h.get(DATA), "concatenate"), h.seq([d, data(h, {"B": ["@y0"]})]))
    state(h, "Data.concatenate(gaps)", c, {
        "A": cols["A"] + [None], "B": cols["B"] + ["@y0"]}, 5)
    for i in range(4):
        exp(h, f"Data[{i}] (gaps)", get(h, d, i),
            {k: c[i] for k, c in cols.items()})


def std_state(h, label, d, cols, n):
    """the order of renamed columns is not specified"""
    exp(h, f"{label}: n_rows", h.attr(d, "n_rows"), n)
    exp(h, f"{label}: data", h.attr(d, "data"), cols)
    exp(h, f"{label}: keys()", call(h, "Data.keys()", h.attr(d, "keys")),
        Un(list(cols)))


@entry("Data standard keys", "prov", "container")
def _(h):
    std = "Data.hrosailing_standard_format()"
    kinds = {"s": "str", "i": "int"}
    cases = (
        ({"Wind Speed": col("a"), "Foo": col("s"), "bar": col("b")},
         {"TWS": "a", "Foo": "s", "bar": "b"}),
        ({"Wind Speed": col("a"), "tws": col("b"), "ws": col("c")},
         {"TWS": "a", "TWS(Control value 1)": "b",
          "TWS(Control value 2)": "c"}),
        ({"TWA": col("a"), "Wind Angles": col("b"), "BSP": col("c")},
         {"TWA": "a", "TWA(Control value 1)": "b", "BSP": "c"}),
        ({"BSP": col("i"), "true_wind_speeds": col("s"), "ws": col("i")},
         {"BSP": "i", "TWS": "s", "TWS(Control value 1)": "i"}),
    )
    for old, new in cases:
        d = data(h, old, kinds)
        m(h, std, d, "hrosailing_standard_format")
        std_state(h, std, d, {k: col(c) for k, c in new.items()}, 3)
    d = data(h, {"tws": ["@s0", None, "@s2"], "twa": [None, "@i1", "@i2"]},
             kinds)
    m(h, std, d, "hrosailing_standard_format")
    std_state(h, std + " (gaps)", d, {"TWS": ["@s0", None, "@s2"],
                                      "TWA": [None, "@i1", "@i2"]}, 3)
    d = data(h, {"A": col("a", 4), "date": ["@d0", None, "@d2", "@d3"],
                 "time": ["@t0", "@t1", None, "@t3"], "B": col("b", 4)})
    m(h, std, d, "hrosailing_standard_format")
    exp(h, std + " (date): keys()", call(h, "Data.keys()", h.attr(
        d, "keys")), Un(["A", "B", "datetime"]))
    exp(h, std + " (date): n_rows", h.attr(d, "n_rows"), 4)
    exp(h, std + " (date): A", get(h, d, "A"), col("a", 4))
    exp(h, std + " (date): B", get(h, d, "B"), col("b", 4))
    for x in ("d", "t"):
        exp(h, std + " (date): datetime", get(h, d, "datetime"),
            [f"@{x}0", None, None, f"@{x}3"])
    d = data(h, {"datetime": [None] * 3, "date": col("d"), "time": col("t")})
    m(h, std, d, "hrosailing_standard_format")
    exp(h, std + " (datetime): n_rows", h.attr(d, "n_rows"), 3)
    exp(h, std + " (datetime): datetime", get(h, d, "datetime"), [None] * 3)


@entry("WeightedPoints masks", "prov", "container")
def _(h):
    grids(h)
    for form in ("dict", "Data", "nd"):
        def pts(a, b, n):
            c = {"A": col(a, n), "B": col(b, n)}
            if form == "dict":
                return val(h, c)
            if form == "Data":
                return data(h, c)
            return arr(h, [[f"@{a}{i}", f"@{b}{i}"] for i in range(n)])

        def check(label, w, cs, ws):
            exp(h, f"{label}: weights", h.attr(w, "weights"), ws)
            p = h.attr(w, "data")
            if form == "Data":
                p = h.attr(p, "data")
            exp(h, f"{label}: data", p, cs if form != "nd" else
                [list(r) for r in zip(*cs.values())])

        w = call(h, f"WeightedPoints({form})", WP, pts("a", "b", 4),
                 arr(h, col("w", 4)))
        for mask in ((True, False, True, True), (False, True, True, False)):
            s = get(h, w, h.fixed("nd", mask))
            k = [i for i in range(4) if mask[i]]
            check(f"WeightedPoints({form})[mask]", s,
                  {"A": [f"@a{i}" for i in k], "B": [f"@b{i}" for i in k]},
                  [f"@w{i}" for i in k])
        w2 = call(h, f"WeightedPoints({form})", WP, pts("x", "y", 2),
                  arr(h, col("v", 2)))
        m(h, f"WeightedPoints({form}).extend()", w, "extend", w2)
        check(f"WeightedPoints({form}).extend()", w,
              {"A": col("a", 4) + col("x", 2),
               "B": col("b", 4) + col("y", 2)}, col("w", 4) + col("v", 2))


@entry("Data masks", "prov", "container")
def _(h):
    grids(h)
    cols = {"A": col("a", 4), "B": ["u", "v", None, "w"]}
    for mask in ((True, False, True, True), (False, True, True, False),
                 (True,) * 4):
        k = [i for i in range(4) if mask[i]]
        for kind, f in (("array", h.fixed("nd", mask)),
                        ("list", lst(h, *mask))):
            d = data(h, cols)
            state(h, f"Data[{kind} mask]", get(h, d, f), {
                n: [c[i] for i in k] for n, c in cols.items()}, len(k))
            state(h, f"Data[{kind} mask] (source)", d, cols, 4)


@entry("Data text values", "prov", "container")
def _(h):
    cols = {"A": col("a", 2), "S": ["one", "two"]}
    d = data(h, cols)
    m(h, "Data.update(text)", d, "update", val(h, {"A": "@x", "S": "three"}))
    state(h, "Data.update(text)", d, {
        "A": cols["A"] + ["@x"], "S": ["one", "two", "three"]}, 3)
    m(h, "Data.append(text)", d, "append", const("S"), const("four"))
    m(h, "Data.update(tuple)", d, "update", h.dict({
        "T": h.seq([const("p"), const("q")], typ="tuple")}))
    exp(h, "Data.update(tuple)", get(h, d, "S"), [
        "one", "two", "three", "four", None])
    d = data(h, {"S": "one"}, label="Data.from_dict(text)")
    state(h, "Data.from_dict(text)", d, {"S": ["one"]}, 1)
