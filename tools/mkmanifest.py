"""Writes MANIFEST.json from the check modules that exist"""
import glob
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
PY = "/opt/venv/bin/python"
from tools.notes import NOTES  # noqa: E402
checks = []
have = [os.path.basename(f)[:-3].upper() for f in sorted(glob.glob("checks/c[0-9][0-9].py"))]
for p in have:
    n = NOTES[p]
    checks.append({
        "property": p,
        "quick_cmd": f"{PY} -m mfv.runner {p} --tier quick",
        "thorough_cmd": f"{PY} -m mfv.runner {p} --tier thorough",
        "technique": n[0],
        "level": "exploration",
        "level_note": n[1],
    })
allp = [json.loads(x)["id"] for x in open("properties.jsonl", encoding="utf-8") if x.strip()]
m = {
    "version": 1,
    "setup_cmd": f"{PY} -m mfv.selftest",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "no check yet (work in progress)"} for p in allp if p not in have],
    "notes": "Runtime monitoring only; no hooks in /repo are needed (everything is observed at the public API, the CLI process "
             "and the files written). See DESIGN.md.",
}
with open("MANIFEST.json", "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
