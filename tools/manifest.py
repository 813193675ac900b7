#!/usr/bin/env python3
"""Regenerates MANIFEST.json (run by hand after changing the set of checks)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKED = os.environ.get("CHECKED", "").split() or [f"C{i:02d}" for i in range(1, 21)] + ["C24", "C25", "C26", "C27", "C28", "C29"]
NA = {
    "C21": "Performance, which simulation does not decide: a pure function of one sequential history: no concurrency, time, I/O, fault or second party can influence tree shape, so there is nothing for a simulator to schedule or inject (and the code does not promise it: heights are only approximated).",
    "C22": "Shape of a private data structure after a sequential history; not observable through the API and not affected by schedules or faults. Its observable consequences are covered by C14.",
    "C23": "Algebraic laws of pure functions on two or three values; no schedule, fault, time or history is involved.",
}
props = {}
for l in open(os.path.join(here, "properties.jsonl")):
    d = json.loads(l)
    props[d["id"]] = d
checks = []
for p in CHECKED:
    checks.append({
        "property": p,
        "quick_cmd": f"bash check.sh {p}",
        "thorough_cmd": f"bash check.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "deterministic simulation with fault injection (seeded schedule and fault search)",
        "level": "exploration",
        "level_note": "Fixed number of seeded simulated executions of the real code (instrumented from the working tree); holds on everything explored, no exhaustiveness claimed. Bounds and oracle: DESIGN.md, section " + p + ".",
    })
na = [{"property": p, "reason": NA[p]} for p in sorted(props) if p in NA]
for p in sorted(props):
    if p not in NA and p not in CHECKED:
        na.append({"property": p, "reason": "Check not built yet."})
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "No hooks in /repo: the checks rewrite a copy of the working tree at build time (sim/instr) and build that copy against the simulator.", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "bash replay.sh out/<file>.json re-executes a reported violation. Known and fixed findings: known-findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
