"""
Makes and tries planted bugs.
    plant.py make SPEC.py [id ...]  a spec has BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]
    plant.py try [id ...]           applies each /verif/seeded/<id>/patch.diff to a copy of /repo: tests, demo, and the checks (of its property)
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

SEEDED = os.environ.get("PLANT_DIR", "/verif/seeded")
BASE = "9532848"
PY = "/opt/venv/bin/python"
TMP = "/tmp/plant"
OUT = os.environ.get("PLANT_ALL")  # run every check rather than that of the property


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str))
    return p.returncode, p.stdout + p.stderr


def make(spec, ids):
    for b in runpy.run_path(spec)["BUGS"]:
        if ids and b["id"] not in ids:
            continue
        copy = fresh("make-" + b["id"])
        bad = None
        for f, old, new in b["edits"]:
            p = os.path.join(copy, f)
            s = open(p, encoding="utf-8", newline="").read()
            if s.count(old) != 1:
                bad = f"{f}: {s.count(old)} times {old!r}"
                break
            open(p, "w", encoding="utf-8", newline="").write(s.replace(old, new))
        if bad:
            print(b["id"], "NOT MADE", bad)
            continue
        _, diff = sh(["git", "diff"], copy)
        d = os.path.join(SEEDED, b["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        shutil.rmtree(copy)


def fresh(name):
    d = os.path.join(TMP, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(TMP, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d


def original(copy):
    """the lines that the patch removes are those of the base"""
    _, diff = sh(["git", "diff", "-U0"], copy)
    f, out = None, []
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
        if m:
            a, n = int(m[1]), int(m[2] or 1)
            if n:
                _, bl = sh(["git", "blame", "-s", "-L", f"{a},{a + n - 1}", "HEAD", "--", f], copy)
                out += [x for x in bl.splitlines() if BASE not in x.split()[0]]
    return out


def tests(copy):
    rc, out = sh(f"{PY} -m pytest -q -p no:cacheprovider -n 4 tests docs/examples misc", copy)
    return rc == 0, out.strip().splitlines()[-1]


def attempt(bid):
    d = os.path.join(SEEDED, bid)
    meta = json.load(open(d + "/meta.json"))
    copy = fresh("try-" + bid)
    res = [bid]
    try:
        rc, out = sh(["git", "apply", d + "/patch.diff"], copy)
        if rc:
            return res + ["DOES NOT APPLY " + out[-200:]]
        own = original(copy)
        if own:
            res.append("NOT ORIGINAL: " + own[0][:80])
        scratch = os.path.join(TMP, "demo-" + bid)
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.copytree(d, scratch)
        for x in ("patch.diff", "meta.json"):
            os.remove(os.path.join(scratch, x))
        rc0, o0 = sh(["bash", scratch + "/demo.sh"], "/repo")
        rc1, o1 = sh(["bash", scratch + "/demo.sh"], copy, {"PYTHONPATH": copy})
        if rc0:
            res.append("DEMO FAILS UNPATCHED " + o0[-300:])
        if not rc1:
            res.append("DEMO PASSES PATCHED")
        ok, last = tests(copy)
        if not ok:
            res.append("TESTS FAIL " + last)
        shutil.rmtree(scratch, ignore_errors=True)
        if len(res) == 1 or os.environ.get("PLANT_ANYWAY"):
            env = {"MFV_REPO": copy, "MFV_EVIDENCE": os.path.join(TMP, "evidence-" + bid), "VERIF_SEED": os.environ.get("VERIF_SEED", "1")}
            props = [f"C{n:02d}" for n in range(1, 21)] if OUT else [meta["property"]]
            for p in props:
                rc, o = sh([PY, "-m", "mfv.runner", p, "--tier", "quick", "--jobs", "4"], os.environ.get("PLANT_VERIF", "/verif"), env)
                m = re.search(r"VIOLATION.*\n\s+(\S+)", o)
                res.append(f"{p}:{'CAUGHT ' + m[1] if rc == 1 and m else ('missed' if rc == 0 else f'EXIT {rc}: ' + o[-300:])}")
        return res
    finally:
        shutil.rmtree(copy, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2], sys.argv[3:])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(int(os.environ.get("PLANT_WORKERS", 3))) as ex:
            for r in ex.map(attempt, ids):
                print(" | ".join(r), flush=True)
