"""Runs the abstract clients of a property in parallel and collects findings."""
import multiprocessing as mp
import os
import sys
import time

from . import entries, entries2, entries3, entries4, entries5, entries6, entries7, entries8, entries9, entries10, entries11, entries12, entries13, entries14, entries15, entries16, entries17, entries18  # noqa: F401 (register the clients)
from . import harness
from .interp import Program

_PROG = None
_JOBS = None


class Result:
    def __init__(self):
        self.findings = {}
        self.gaps = {}
        self.entries = []
        self.calls = 0
        self.events = 0
        self.steps = 0
        self.functions = set()
        self.obligations = {}
        self.samples = {}
        self.unmodelled = {}
        self.unsupported = set()


def _one(i):
    entry, mk, absent, steps = _JOBS[i]
    sys.setrecursionlimit(20000)
    rules = mk()
    t = time.time()
    h = harness.run_entry(_PROG, entry, rules, absent=absent, steps=steps)
    fs = []
    ob = {}
    sm = {}
    for r in rules:
        fs += [f.as_dict() for f in r.findings.values()]
        ob[r.name] = ob.get(r.name, 0) + r.obligations
        sm.setdefault(r.name, []).extend(r.samples[:3])
    return dict(entry=entry.name, findings=fs, gaps=list(h.gaps),
                calls=len(h.calls), events=h.events, steps=h.I.steps,
                functions=sorted(str(x) for x in h.I.functions_seen),
                obligations=ob, samples=sm,
                unmodelled=dict(h.ext.unmodelled)
                if isinstance(h.ext.unmodelled, dict)
                else {str(x): 1 for x in h.ext.unmodelled},
                unsupported=[str(x) for x in h.I.unsupported],
                t=time.time() - t)


def run(repo, jobs, workers=None):
    """jobs: list of (entry, rule factory, absent packages, step budget)"""
    global _PROG, _JOBS
    _PROG = Program(repo)
    _JOBS = jobs
    res = Result()
    workers = workers or min(8, os.cpu_count() or 1)
    import threading
    threading.stack_size(256 * 1024 * 1024)
    outs = []
    if workers == 1 or len(jobs) <= 1:
        outs = [_one(i) for i in range(len(jobs))]
    else:
        ctx = mp.get_context("fork")
        # expensive clients first
        order = sorted(range(len(jobs)), key=lambda i: -cost(jobs[i][0]))
        with ctx.Pool(workers) as pool:
            outs = list(pool.imap_unordered(_one, order, chunksize=1))
    outs.sort(key=lambda o: o["entry"])
    for o in outs:
        res.entries.append((o["entry"], o["calls"], round(o["t"], 2)))
        for f in o["findings"]:
            key = f["key"]
            if key not in res.findings:
                res.findings[key] = dict(f, entries=[o["entry"]])
            elif o["entry"] not in res.findings[key]["entries"]:
                res.findings[key]["entries"].append(o["entry"])
        if o["gaps"]:
            res.gaps.setdefault(o["entry"], []).extend(o["gaps"])
        res.calls += o["calls"]
        res.events += o["events"]
        res.steps += o["steps"]
        res.functions |= set(o["functions"])
        for k, v in o["obligations"].items():
            res.obligations[k] = res.obligations.get(k, 0) + v
        for k, v in o["samples"].items():
            res.samples.setdefault(k, []).extend(v)
        for k, v in o["unmodelled"].items():
            res.unmodelled[k] = res.unmodelled.get(k, 0) + v
        res.unsupported |= set(o["unsupported"])
    return res


def cost(e):
    if "real" in e.tags:
        return 100
    if e.name.startswith("NMEA"):
        return 40
    if "pipeline" in e.tags:
        return 20
    if "cruising" in e.tags or "plotting" in e.tags:
        return 10
    return 1
