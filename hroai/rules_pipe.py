"""Rules about the data processing pipeline (dataflow labels of its stages)."""
from .domain import Inst, Seq, V
from .harness import Gap
from .rules import Rule

STAGES = ("data_handler", "imputator", "smoother", "pre_expander_weigher",
          "pre_expander_filter", "expander", "pre_influence_weigher",
          "pre_influence_filter", "influence_model", "post_weigher",
          "post_filter", "injector", "extension", "quality_assurance")
SLOTS = {s: s.replace("pre_expander", "pre_expanding") for s in STAGES}
# the method through which a stage processes the data
WORK = {"handle", "impute", "smooth", "weigh", "filter", "expand", "fit",
        "remove_influence", "inject", "process", "check"}


def out(h, rec, name):
    """attribute of the pipeline's output, None if it is not available"""
    try:
        return h.attr(rec.ret, name)
    except Gap:
        return None


def labels(h, v, st):
    return frozenset(h.I.deep_labels(v, st))


def pipeline_call(h):
    return h.cur is not None and "pipeline" in h.cur.tags


class NoLeak(Rule):
    name = "test-data-flow"
    text = ("information flow: no value derived from the test data reaches "
            "the polar diagram, a fit of the influence model, the injector, "
            "the extension or the training statistics (explicit and "
            "implicit flows through the components)")

    def on_event(self, h, kind, node, data):
        if kind != "opaque-call" or not pipeline_call(h):
            return
        if data["method"] in ("fit", "inject", "process"):
            lab = labels(h, data["args"].all_value(), data["st"]) \
                if hasattr(data["args"], "all_value") else frozenset().union(
                    *[labels(h, a, data["st"]) for a in data["args"].all()])
            self.oblige(1, f"{h.entry}: {data['name']}.{data['method']} "
                           "sees no test data")
            if "TEST" in lab:
                self.report(h, f"{data['name']}.{data['method']}",
                            f"{data['name']}.{data['method']} is given test "
                            "data", node)

    def on_call(self, h, rec):
        if "pipeline" not in rec.tags and "pipeline-real" not in rec.tags:
            return
        if rec.post is None:
            return
        pd = out(h, rec, "polardiagram")
        if pd is not None:
            self.oblige(1, f"{rec.entry}: {rec.label}: diagram is "
                           "independent of the test data")
            if "TEST" in labels(h, pd, rec.post):
                self.report(h, "diagram", "the polar diagram depends on the "
                                          "test data")
        ts = out(h, rec, "training_statistics")
        if ts is None:
            return
        for s, slot in SLOTS.items():
            if s == "quality_assurance":
                continue  # measures the diagram against the test data
            try:
                v = h.attr(ts, slot)
            except Gap:
                continue
            self.oblige()
            if "TEST" in labels(h, v, rec.post):
                self.report(h, f"statistics {slot}",
                            f"the training statistics of {slot} depend on "
                            "the test data")


class Stages(Rule):
    name = "stage-order"
    text = ("typestate of the stages, carried as labels by the data: each "
            "enabled stage receives data that has passed exactly the "
            "enabled stages before it; disabled stages are never invoked; "
            "every statistics slot carries the statistics of its own stage")

    # stages whose output flows on into the data
    FLOW = STAGES[:12]

    def on_event(self, h, kind, node, data):
        if kind != "opaque-call" or not pipeline_call(h):
            return
        s, m = data["name"], data["method"]
        if s not in STAGES or m not in WORK or h.pipe is None:
            return
        off = set(h.pipe["off"])
        if not h.pipe["test"]:
            off.add("quality_assurance")
        self.oblige()
        if s in off:
            self.report(h, f"{s} runs", f"the disabled stage {s} is invoked "
                        f"({m})", node)
            return
        a = data["args"].pos
        if not a:
            return
        v = a[1] if m == "check" and len(a) > 1 else a[0]
        lab = labels(h, v, data["st"])
        test = "TEST" in lab
        if not (lab & {"TRAIN", "TEST", "TRAIN2"}):
            return  # no tracked data
        pre = "S2:" if test else "S:"
        seen = {x[len(pre):] for x in lab if x.startswith(pre)}
        i = STAGES.index(s)
        before = [x for x in self.FLOW[:i] if x not in off]
        if test and s == "quality_assurance":
            before = [x for x in before if x != "injector"]
        # weights are only looked at by the filter next to their weigher,
        # by the injector and by the extension
        for w, f in (("pre_expander_weigher", "pre_expander_filter"),
                     ("pre_influence_weigher", "pre_influence_filter"),
                     ("post_weigher", "post_filter")):
            if w in before and s != f and (
                w != "post_weigher" or s == "quality_assurance") and (
                f in off
            ):
                before.remove(w)
        missing = [x for x in before if x not in seen]
        late = [x for x in self.FLOW[i:] if x in seen and x != s]
        self.oblige(1, f"{h.entry}: {s}.{m} gets data of "
                       f"{len(before)} stages")
        for x in missing:
            self.report(h, f"{s} without {x}",
                        f"{s}.{m} receives data that has not passed {x}",
                        node)
        for x in late:
            self.report(h, f"{s} after {x}",
                        f"{s}.{m} receives data that has already passed {x}",
                        node)

    def on_call(self, h, rec):
        if "pipeline" not in rec.tags or rec.post is None or h.pipe is None:
            return
        for what, testing in (("training_statistics", False),
                              ("test_statistics", True)):
            ts = out(h, rec, what)
            if ts is None:
                continue
            off = set(h.pipe["off"])
            if testing:
                off |= {"injector", "extension", "quality_assurance"}
            if not h.pipe["test"]:
                off.add("quality_assurance")
                if testing:
                    off |= set(STAGES)
            for s, slot in SLOTS.items():
                try:
                    v = h.attr(ts, slot)
                except Gap:
                    continue
                lab = {x[5:] for x in labels(h, v, rec.post)
                       if x.startswith("STAT:")}
                self.oblige(1, f"{rec.entry}: {what}.{slot}")
                for x in sorted(lab - {s}):
                    self.report(h, f"{what}.{slot} has {x}",
                                f"{what}.{slot} contains the statistics of "
                                f"the stage {x}")
                if s in off and s in lab:
                    self.report(h, f"{what}.{slot} not empty",
                                f"{what}.{slot} has statistics of a stage "
                                "that did not run")
                if s not in off and s not in lab:
                    self.report(h, f"{what}.{slot} empty",
                                f"{what}.{slot} lacks the statistics of its "
                                "stage")
