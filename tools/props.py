#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

P = "hrosailing/polardiagram/"
PR = "hrosailing/processing/"
PIPE = "hrosailing/pipeline/"
MOD = "hrosailing/models/"
CORE = "hrosailing/core/"
CR = "hrosailing/cruising/"
PLOT = "hrosailing/plotting/"

PROPS = []


def prop(pid, title, statement, over, text, tests, files, mech, state=(),
         tech=None, note=None, na=None):
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over,
                      text=text, tests=tests, files=files, mech=mech,
                      state=state, tech=tech, note=note, na=na))


TRUST = ("Abstract interpretation of /repo's current source, whole call "
         "chains of every listed client with arbitrary-size inputs. Trusts "
         "the models of numpy/scipy/pandas/csv/... in hroai/ and that "
         "user-supplied components keep their documented interface. ")

prop("C01", "Arguments of the caller are never modified",
     "No operation of the library changes an array, list, dictionary or "
     "object the caller passes as an argument: after the call the caller's "
     "arguments hold exactly the values they held before. Excepted are only "
     "the receiver of a documented update operation and the data handed "
     "over to the in-place processing stages (imputation, smoothing, "
     "expansion).",
     ["inputs", "programs"],
     "every public operation, every documented form of its arguments "
     "(arrays, nested lists, scalars, dictionaries), every size and value",
     "The tests pass fresh literals and never look at an argument after the "
     "call; whether a write reaches the caller depends on aliasing through "
     "views, not on the sampled values.",
     [P + "_polardiagramtable.py", P + "_polardiagrampointcloud.py", P + "_polardiagrammultisails.py",
      P + "_polardiagramcurve.py", CORE + "computing.py", CORE + "data.py", PR, PIPE,
      MOD, CR],
     [("defensive copies before normalisation", CORE + "computing.py"),
      ("np.array(..., copy) in constructors", P + "_polardiagramtable.py")],
     tech="interprocedural alias/effect analysis (abstract interpretation)",
     note=TRUST + "Every write event on every path is compared with the "
          "locations owned by the caller.")

prop("C02", "Objects share no mutable state with callers or each other",
     "A polar diagram, weather model, regressor or data container never "
     "keeps a reference to a mutable array, list or dictionary of the "
     "caller, and never hands out one that belongs to its own state. "
     "Changing an argument after the call, or a returned value, therefore "
     "never changes the object; two objects never share mutable state "
     "through the class or module.",
     ["inputs", "histories"],
     "all constructors, accessors and derived objects; all later "
     "modifications of arguments and results by the caller",
     "Only a later modification of an argument or result reveals sharing; "
     "the tests compare values immediately after the call.",
     [P, CORE + "data.py", MOD + "weather_model.py", PR + "regressor.py"],
     [("copies in constructors and properties", P + "_polardiagramtable.py")],
     tech="escape analysis over abstract heaps",
     note=TRUST + "Decides disjointness of the mutable locations reachable "
          "from object state, arguments, results and module globals. "
          "Documented live views (column access of a data container) are "
          "exempt.")

prop("C03", "Queries never change the object they query",
     "Evaluating, slicing, plotting, saving, mirroring or cruising with a "
     "polar diagram, and querying weather models, globe models, influence "
     "models, interpolators, samplers or quality checks, leaves the observable "
     "state of the queried object and of every object passed to it as it "
     "was. Asking the same question twice gives the same answer.",
     ["inputs", "histories"],
     "every query method with every documented argument form, in every "
     "order and number",
     "The tests query an object once or twice with fixed arguments; an "
     "effect on the receiver only shows in a later, different query.",
     [P, CR + "basics.py", PLOT + "projections.py", MOD,
      PIPE + "quality_assurance.py"],
     [("queries work on local copies", P + "_polardiagramtable.py")],
     tech="effect (purity) analysis over abstract heaps",
     note=TRUST + "Every location reachable from the frozen objects is "
          "watched for writes of a different value on all paths.")

prop("C04", "Rejected updates leave the object unchanged",
     "When an update operation (adding or changing points, changing table "
     "entries, updating a data container) raises "
     "because its input is invalid, the object is left as it was before the "
     "call. No part of the rejected input is stored.",
     ["inputs", "fault_sequences"],
     "every explicit error exit of every update operation, for every "
     "invalid input",
     "The tests check that an exception is raised, not what the object "
     "contains afterwards.",
     [P + "_polardiagrampointcloud.py", P + "_polardiagramtable.py", P + "_polardiagrammultisails.py",
      CORE + "data.py"],
     [("validation before assignment", P + "_polardiagrampointcloud.py")],
     tech="taint analysis of the state at every raise, value provenance of rejected updates",
     note=TRUST + "In the abstract state of every explicit raise nothing "
          "derived from the rejected input may be reachable from the "
          "receiver.")

prop("C05", "Components carry nothing over from earlier inputs",
     "The result and the reported statistics of a data handler, imputator, "
     "smoother, weigher, filter, expander, influence model, injector, "
     "extension, sampler, interpolator, regressor, weather model or diagram "
     "query depend only on its configuration and its current input, never on "
     "data processed earlier by the same or another object. Statistics "
     "always describe the latest operation.",
     ["histories", "inputs"],
     "every sequence of two operations of one component, and of two "
     "components of the same class, on unrelated inputs of any size "
     "(including empty ones)",
     "The tests use a new component for every case; carried-over state only "
     "shows when one component processes several different inputs.",
     [PR, PIPE, MOD, P],
     [("per-call state", PR + "weigher.py"),
      ("statistics are set on every operation",
       CORE + "statistics.py")],
     tech="two-run information-flow (non-interference) analysis",
     note=TRUST + "Data of the first call is labelled; the label must not "
          "reach results, statistics (explicit or implicit flows) of the "
          "second call.")

prop("C06", "Test data never influences the trained polar diagram",
     "The polar diagram created by the pipeline and its training "
     "statistics depend on the training data only: fitting of the "
     "influence model, injection of points and creation of the diagram "
     "never see data derived from the test data. Only the quality check "
     "and the statistics of the test data do.",
     ["inputs", "configurations"],
     "all components, all subsets of enabled stages, with and without test "
     "data",
     "The tests run fixed data through the pipeline and cannot distinguish "
     "where a value came from.",
     [PIPE + "pipeline.py"],
     [("separate preprocessing of training and test data",
       PIPE + "pipeline.py")],
     tech="information-flow (taint) analysis",
     note=TRUST + "Components are arbitrary; explicit and implicit flows "
          "from test data to the diagram, fits and training statistics are "
          "tracked for every enabling configuration.")

prop("C07", "Pipeline stages run in order and only when enabled",
     "Data passes the stages of the pipeline in the documented order "
     "(handler, imputator, smoother, weigher and filter before the "
     "expander, expander, weigher and filter before the influence model, "
     "influence model, weigher, filter, injector, extension, quality "
     "check), each enabled stage sees the output of its predecessors, and "
     "a stage that is disabled is never invoked. Each field of the "
     "reported statistics holds the statistics of exactly its own stage, "
     "and is empty for stages that did not run.",
     ["configurations", "programs"],
     "all enabling flags (documented aliases included), with and without "
     "test data, arbitrary components",
     "The tests run the pipeline on a few flag combinations and look at "
     "the final diagram, not at the flow between stages.",
     [PIPE + "pipeline.py"],
     [("order of calls in preprocessing", PIPE + "pipeline.py"),
      ("construction of the statistics tuple", PIPE + "pipeline.py")],
     tech="typestate analysis with dataflow labels",
     note=TRUST + "Each stage is an arbitrary component whose output "
          "carries a label; required/forbidden labels are checked at every "
          "stage invocation and statistics slot.")

prop("C08", "Angle units are never confused",
     "Wherever an angle is used its unit (degrees or radians) is the one "
     "the consumer expects: trigonometric functions receive radians, "
     "degree arithmetic receives degrees, conversions are applied exactly "
     "once, and results that are documented in degrees are in degrees. A "
     "curve declared to use radians has its function evaluated in radians, "
     "all others in degrees.",
     ["inputs", "configurations"],
     "all angles on all paths of all operations, for degree and radian "
     "curves",
     "Unit errors hide where tests use 0 degrees, symmetric angles or "
     "compare against values computed with the same error.",
     [CORE + "computing.py", P + "_polardiagramcurve.py", MOD + "globe_model.py",
      CR + "basics.py", PLOT + "projections.py", PIPE + "extensions.py"],
     [("np.deg2rad before trigonometry", CORE + "computing.py"),
      ("the radians flag of curves", P + "_polardiagramcurve.py")],
     tech="unit inference (abstract interpretation with scale facets), value provenance",
     note=TRUST + "Only angles whose unit is tracked are judged; unknown "
          "units never alarm.")

NA = []


def na(pid, title, statement, over, text, tests, files, reason):
    prop(pid, title, statement, over, text, tests, files,
         [("numerical computation", files[0])], na=reason)


exec(open(os.path.join(HERE, "tools", "props_more.py"),
          encoding="utf-8").read())


def main():
    from hroai.checks import CHECKS
    with open(os.path.join(HERE, "properties.jsonl"), "w",
              encoding="utf-8") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["pid"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["tests"],
                "anchors": {
                    "files": p["files"],
                    "state": [dict(zip(("name", "meaning", "where"), s))
                              for s in p["state"]],
                    "mechanism": [dict(zip(("name", "where"), m))
                                  for m in p["mech"]],
                    "hook_needed": None}}) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    man = {"version": 1,
           "setup_cmd": "python3 -m compileall -q hroai check.py",
           "checks": [], "not_applicable": [],
           "notes": "Static analysis: an abstract interpreter for the "
                    "Python subset used by hrosailing (hroai/) analyses "
                    "symbolic clients of the public API in /repo's current "
                    "source. Nothing of /repo is executed."}
    for p in PROPS:
        if p["na"] is None and p["pid"] in CHECKS:
            man["checks"].append({
                "property": p["pid"],
                "quick_cmd": f"python3 check.py {p['pid']}",
                "thorough_cmd": f"python3 check.py {p['pid']} --thorough",
                "evidence_file": f"evidence/{p['pid']}.json",
                "technique": p["tech"], "level": "other",
                "level_note": p["note"]})
        else:
            man["not_applicable"].append({
                "property": p["pid"],
                "reason": p["na"] or "its check is not part of the "
                                     "framework yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w",
              encoding="utf-8") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
