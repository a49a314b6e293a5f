#!/usr/bin/env python3
"""Decides one property of /repo's current source by abstract interpretation.

usage: check.py PROPERTY [--thorough]
"""
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get("HRO_REPO", "/repo")


def known(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    with open(p, encoding="utf-8") as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=\{(.*?)\} (.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    from hroai import checks, runner
    ck = checks.CHECKS[pid]
    jobs = ck.jobs(tier == "thorough")
    res = runner.run(REPO, jobs)
    kn = known(pid)
    viol = {k: f for k, f in res.findings.items() if k not in kn}
    ran = [e for e, calls, _ in res.entries if calls]
    obl = sum(res.obligations.values())
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    samples = []
    for v in res.samples.values():
        samples += v[:8]
    cov = {
        "explanation": ck.text,
        "abstract_clients": len(res.entries),
        "abstract_calls": res.calls,
        "functions_analysed": len(res.functions),
        "functions": sorted(res.functions),
        "abstract_steps": res.steps,
        "events_examined": res.events,
        "obligations": obl,
        "discharged": max(0, obl - len(res.findings)),
        "obligations_by_rule": res.obligations,
        "rules": ck.rules(),
        "clients_not_completed": res.gaps,
        "unmodelled_operations": dict(sorted(res.unmodelled.items())[:60]),
        "unsupported_constructs": sorted(res.unsupported),
        "samples": samples[:24],
        "findings": [dict(f, trail=f["trail"][-400:])
                     for f in res.findings.values()],
    }
    ev = {
        "property": pid, "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other", "coverage": cov,
        "assumptions": [
            "external libraries behave as modelled in hroai/ext*.py, "
            "hroai/nparr.py",
            "user-supplied components satisfy their documented interface",
            "unknown values never raise an alarm (the analysis reports only "
            "tracked evidence)",
        ],
        "violations": len(viol), "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w",
              encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: {len(res.entries)} clients, {res.calls} calls, "
          f"{len(res.functions)} functions, {obl} obligations, "
          f"{len(res.findings)} findings ({tier}, "
          f"{time.time() - t0:.1f}s)")
    for e, g in sorted(res.gaps.items()):
        print(f"note: client '{e}' not completed: {'; '.join(g)}")
    if not ran:
        print("error: no abstract client could be analysed")
        return 2
    for k, f in sorted(res.findings.items()):
        if k in kn:
            print(f"KNOWN-FINDING: property={pid} {kn[k]}")
    if not viol:
        return 0
    rp = os.path.join(HERE, "evidence", pid + ".replay.txt")
    with open(rp, "w", encoding="utf-8") as f:
        for k, v in sorted(viol.items()):
            f.write(f"{k}\n  {v['msg']}\n  at {v['file']}:{v['line']} in "
                    f"{v['func']}\n  path: {v['trail']}\n  clients: "
                    f"{', '.join(v['entries'][:6])}\n  rerun: python3 "
                    f"check.py {pid}\n")
    for k, v in sorted(viol.items()):
        print(f"  {v['msg']} [{v['file']}:{v['line']} {v['func']}] "
              f"key={{{k}}}")
    print(f"VIOLATION property={pid} replay={rp}")
    return 1


if __name__ == "__main__":
    sys.exit(main())
