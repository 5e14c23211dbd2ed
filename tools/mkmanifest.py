#!/opt/venv/bin/python
"""Write MANIFEST.json from the property modules that exist."""

import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

PURE = {
    "P22": "Encoding and decoding a single number is a pure function; it would be input generation only.",
}

checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if pid in PURE:
        na.append({"property": pid, "reason": PURE[pid]})
        continue
    if not os.path.exists(os.path.join(HERE, "sim", "props", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "No check has been built yet."})
        continue
    m = importlib.import_module(f"sim.props.{pid.lower()}")
    checks.append({
        "property": pid,
        "quick_cmd": f"/opt/venv/bin/python check.py {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python check.py {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": getattr(m, "TECHNIQUE", "deterministic simulation: seeded search over histories and faults against a reference model"),
        "level": m.LEVEL,
        "level_note": getattr(m, "NOTE", f"{m.RUNS['quick']} runs (quick), up to {m.RUNS['thorough']} (thorough), one seed each. Sampled, not exhaustive. {m.RULE}"),
    })
json.dump({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python check.py --selftest",
    "checks": checks,
    "not_applicable": na,
    "notes": "Pure Python: nothing is built; every check imports vfbLib from /repo/src, with bytecode caches off. No hooks in /repo: the library's own seams (paths and streams passed in, builtins.open, os, tempfile, time.time, sys.settrace, sys.monitoring) are taken over from outside. See DESIGN.md.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
