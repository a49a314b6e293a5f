"""Which rules decide which property, over which abstract clients."""
from . import rules as R
from . import rules_arg as RA
from . import rules_dep as RD
from . import rules_io as RI
from . import rules_pipe as RP
from . import rules_prov as RPV
from . import rules_val as RV
from .entries import ENTRIES
from . import entries2, entries3, entries4, entries5, entries6, entries7, entries8, entries9, entries10, entries11, entries12, entries13, entries14, entries15, entries16, entries17, entries18  # noqa: F401

CHECKS = {}


class Check:
    def __init__(self, pid, mk, select, text, absent=((),), steps=1500000,
                 variants=False, prov=False, marks=()):
        self.variants = variants
        self.marks = frozenset(marks)
        self.prov = prov
        self.pid = pid
        self.mk = mk
        self.select = select
        self.text = text
        self.absent = absent
        self.steps = steps

    def jobs(self, thorough=False):
        out = []
        for e in ENTRIES:
            if "pipe-variant" in e.tags and not thorough and \
                    not self.variants:
                continue
            if "prov" in e.tags and not self.prov:
                continue
            if thorough and not self.prov or self.select(e):
                for a in self.absent:
                    out.append((e, self.mk, a,
                                self.steps * (4 if thorough else 1)))
        for e in ENTRIES:
            if "prov" in e.tags and e.tags & self.marks:
                out.append((e, self.traced, (), self.steps))
        return out

    def traced(self):
        return [RPV.Provenance(self.pid)]

    def rules(self):
        return {r.name: r.text for r in self.mk() + (
            self.traced() if self.marks else [])}


def check(pid, mk, select=lambda e: True, text="", **kw):
    CHECKS[pid] = Check(pid, mk, select, text, **kw)


def tags(*ts):
    return lambda e: bool(e.tags & set(ts))


def not_tags(*ts):
    return lambda e: not (e.tags & set(ts))


PDC = "hrosailing.polardiagram.PolarDiagram"
REPR = (PDC, "hrosailing.models.WeatherModel",
        "hrosailing.processing.Regressor", "hrosailing.core.data.Data")

check("C01", lambda: [R.InputsUnmodified("C01")],
      text="Ownership analysis: every heap location reachable from the "
           "arguments of an abstract client is owned by the caller; no write "
           "event (item/slice/attribute assignment, in-place operator, "
           "mutating method, out= argument) of any path of the called "
           "operation may hit one of them, through any chain of views, "
           "aliases, containers or callees.")
check("C02", lambda: [R.Exposure("C02", REPR)],
      text="Escape analysis: after every constructor/method call the mutable "
           "locations reachable from the object's fields are disjoint from "
           "those reachable from the caller's arguments, from results and "
           "from module- or class-level state.")
check("C03", lambda: [R.Observer("C03")],
      select=tags("observer", "cruising", "plotting", "qa", "weather",
                  "globe", "influence", "interpolator", "sampler",
                  "extension"),
      text="Effect analysis: the locations reachable from a frozen receiver "
           "or argument object are never written with a different value on "
           "any path of a query.")
check("C08", lambda: [R.Angles("C08")],
      marks=("units",),
      text="Unit inference: every tracked angle carries its scale (degrees, "
           "radians) through arithmetic, containers and calls; trig "
           "functions need radians, conversions need their source unit, and "
           "sums, comparisons and full-turn constants must not mix units; "
           "a model function or regressor receives the unit the curve "
           "declares.")
check("C04", lambda: [R.Atomic("C04")], select=tags("update"),
      marks=("atomic",),
      text="Taint analysis of failed updates: the values of the rejected "
           "input carry a label; in the state of every explicit raise of an "
           "update operation that label must not be reachable from the "
           "receiver.")
check("C05", lambda: [R.History("C05")], select=tags("reuse"),
      text="Two-run non-interference: the input of the first operation "
           "carries a label that must reach neither result, statistics nor "
           "decisions of a second operation on an unrelated input, by the "
           "same or another object.")
check("C06", lambda: [RP.NoLeak("C06")], select=tags("pipeline"),
      variants=True,
      text="Information flow from the test data through arbitrary stage "
           "components.")
check("C07", lambda: [RP.Stages("C07")], select=tags("pipeline"),
      variants=True,
      text="Typestate of the stages: every stage output is labelled; at "
           "every stage invocation the labels of the enabled predecessors "
           "must be present and those of successors absent; statistics "
           "slots carry the label of their own stage only.")
check("C09", lambda: [RV.Normalised("C09")], select=tags("pd"),
      marks=("turns",),
      text="Caller wind angles carry an `un-normalised` fact, cleared only "
           "by a reduction modulo a full turn in the unit of the angle; it "
           "must not reach stored angles, equality comparisons with stored "
           "angles, model functions or interpolators.")
check("C10", lambda: [RV.Columns("C10")],
      marks=("winds", "rows"),
      text="Quantity inference: every tracked number carries the quantity "
           "it stands for through arithmetic, arrays, records and calls; "
           "results, record keys and component arguments must hold the "
           "documented one; sums and comparisons stay inside a quantity.")
check("C11", lambda: [RI.RoundTrip("C11"), RD.Beside("C11")],
      select=tags("roundtrip"),
      marks=("stored",),
      text="Value flow through files: each writer is analysed against a "
           "symbolic file whose records keep the written values; the reader "
           "is analysed on that file and the attributes of its result must "
           "hold the written quantities in the written order, unrounded.")
OPT = ("meteostat", "netCDF4", "pandas", "pynmea2")
check("C12", lambda: [RD.OptionalPackages("C12")],
      select=lambda e: not e.tags & {"roundtrip", "reuse", "pipe-variant",
                                     "pipeline-real"},
      absent=(("*",),) + tuple((p,) for p in OPT) + (OPT + ("*",),),
      text="Name binding analysis of the whole package and of all clients "
           "in every environment of the list: all optional packages present, "
           "each one absent, all absent.")
check("C13", lambda: [RD.FileUse("C13")],
      select=lambda e: not e.tags & {"reuse", "pipe-variant"},
      text="Typestate analysis of file objects over every normal and "
           "exceptional exit, and an effect analysis of all operations.")
check("C14", lambda: [RD.NothingExecuted("C14")],
      select=lambda e: not e.tags & {"reuse", "pipe-variant"},
      text="Taint analysis from files and arguments to operations that "
           "execute text.")
check("C17", lambda: [RA.Restrictions("C17")], select=tags("validation"),
      text="Interval, shape and finiteness analysis of abstract calls whose "
           "arguments lie outside (or on the border of) every documented "
           "restriction.")
check("C15", lambda: [RPV.Provenance("C15")], select=tags("container"),
      prov=True,
      text="Provenance: abstract containers of a fixed small shape whose "
           "cells carry distinct marks; the place every mark ends up at is "
           "compared with the documented one.")
check("C16", lambda: [RPV.Provenance("C16")], select=tags("winds"),
      prov=True,
      text="Provenance: abstract diagrams with known winds whose boat speeds "
           "carry distinct marks; the wind every mark is returned for is "
           "compared with the one it was given for.")
check("C18", lambda: [RPV.Provenance("C18")], select=tags("rows"),
      prov=True,
      text="Provenance analysis of the processing components: handlers, "
           "imputators, filters, influence models, injectors, smoothers, "
           "weather expansion and extensions are applied to rows of marks; "
           "every cell of the result is compared with the row, the "
           "interpolation or the statistic the documentation asks for.")
check("C19", lambda: [RPV.Provenance("C19")], select=tags("gridded"),
      prov=True,
      text="Provenance with affine forms: weather models whose stored values "
           "are marks; every answer is compared with the form over the marks "
           "the documentation asks for.")
check("C21", lambda: [RPV.Provenance("C21")], select=tags("interp"),
      prov=True,
      text="Provenance with linear forms: points, tables, clouds and curves "
           "with known winds and marked boat speeds (or coefficients); the "
           "weight every mark has in an interpolated or evaluated result is "
           "compared with the documented one.")
check("C20", lambda: [RPV.Provenance("C20")], select=tags("weights"),
      prov=True,
      text="Provenance with polynomial forms: weighers, sums, differences, "
           "products, quotients and powers of weighers and fuzzy truths are "
           "applied to marked points; every weight and every statistic is "
           "compared with the form the documentation asks for. Levels and "
           "scales of the boat speeds are abstract.")
check("C22", lambda: [RPV.Provenance("C22")], select=tags("quality"),
      prov=True,
      text="Provenance with polynomial forms: quality assurance is applied "
           "to a diagram whose values are marks.")
check("C30", lambda: [RPV.Provenance("C30")], select=tags("conversion"),
      prov=True,
      text="Provenance with terms: winds are marks with ranges; converted "
           "winds and reconverted winds are compared with the wind triangle "
           "by random interpretation of the terms.")
check("C23", lambda: [RPV.Provenance("C23")], select=tags("modelfunctions"),
      prov=True,
      text="Provenance with terms: winds and parameters are marks; values "
           "are compared with the documented formula by random "
           "interpretation of the terms.")
check("C24", lambda: [RPV.Provenance("C24")], select=tags("globes"),
      prov=True,
      text="Provenance with terms: positions and radius are marks; projected "
           "positions, distances and paths are compared with spherical and "
           "Mercator geometry by random interpretation of the terms.")
check("C34", lambda: [RPV.Provenance("C34")], select=tags("share"),
      prov=True,
      text="Provenance with ordered marks: weights and distances are marks "
           "of which only the order is known (and constants with ties); the "
           "points a filter keeps and a neighbourhood contains are compared "
           "with the documented ones.")
check("C35", lambda: [RPV.Provenance("C35")], select=tags("drawn"),
      prov=True,
      text="Provenance: plots of diagrams with known winds and marked boat "
           "speeds; every line, point, color and legend entry that is handed "
           "to the drawing library is compared with the documented one.")
check("C36", lambda: [RPV.Provenance("C36")], select=tags("courses"),
      prov=True,
      text="Provenance with terms: positions, courses and proportions are "
           "marks with ranges; legs of cruises are compared with distance "
           "and course on the earth and with the hull of the diagram by "
           "random interpretation of the terms.")
