"""Writes MANIFEST.json from the scenarios present and tools/notes.json."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(ROOT, "dst", "scen", pid.lower() + ".py")):
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 dst/runner.py check {pid} --tier quick",
            "thorough_cmd": f"python3 dst/runner.py check {pid} --tier thorough",
            "technique": "deterministic simulation with fault injection: "
            + notes["technique"].get(pid, "seeded schedule and fault search"),
            "level": "exploration",
            "level_note": notes["level_note"].get(pid, notes["default_note"]),
        })
    else:
        na.append({
            "property": pid,
            "reason": notes["not_applicable"].get(
                pid, "not claimed: its simulation scenario is not built yet"),
        })
doc = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c 'import websockets, cerberus'"
    " && python3 tools/setup_check.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo are needed: every seam (threads, locks, "
    "clocks, sockets, selectors, asyncio, files, entropy) is installed from "
    "/verif/dst before vtelem is imported from /repo. Source lines and "
    "bytecodes become scheduling points through sys.monitoring. Repairs of "
    "genuine defects are the fix: commits listed in known_findings.json.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
