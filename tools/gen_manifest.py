#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
NA = {
    "N01": "Pure functions of section, material and forces: no schedule, clock, fault, history or shared state for a simulated run to vary; generating inputs against the standard would be another technique. (Whether cached section data follow edits is C01; whether reported utilisations are current is D01.)",
    "N02": "A table lookup and closed-form geometry per profile name; nothing nondeterministic, stateful or failing to simulate.",
    "N03": "Closed-form component formulas evaluated once per joint object; no concurrency, time, I/O or multi-step history the property depends on.",
    "N04": "A pure sum over member data; no schedule, fault or history in the statement.",
}
NOTE = ("Seeded search over simulated histories, faults and schedules of the real code in one process; a clean batch is evidence over the runs "
        "explored, not proof. Trusts the simulator seams in /verif/sim and the oracle named in DESIGN.md for this property.")
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
have = [p for p in props if os.path.exists(os.path.join(V, "checks", p.lower() + ".py"))]
checks = [{"property": p, "quick_cmd": f"{PY} check.py {p} --tier quick", "thorough_cmd": f"{PY} check.py {p} --tier thorough",
           "evidence_file": f"evidence/{p}.json", "technique": "deterministic simulation with fault injection (seeded search over histories, faults and schedules)",
           "level": "exploration", "level_note": NOTE} for p in have]
na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in have]
json.dump({"version": 1, "setup_cmd": f"{PY} tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam (statements, clock, entropy, files, console, solver, threads) is taken from outside by sys.monitoring and by replacing library functions inside the simulated process."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable / not yet")
