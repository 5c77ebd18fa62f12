"""
Runs the check of one property: spreads its jobs over forked workers, gathers what the monitors saw, and gives
the verdict.

    python -m mfv.runner C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--job NAME] [--jobs N]

A check is a module checks/cNN.py with
    PROPERTY, LEVEL, RULE, ASSUMPTIONS (optional)
    plan(tier) -> list of (job name, number of units, units per shard)
    REQUIRED(tier) -> {counter: least value}: fewer means that the monitors did not see enough (inconclusive)
    unit(job, i, rng, mon): runs one unit; everything it decides is reported through mon
Each unit draws every random choice from its own rng, seeded with (seed, property, job, i).
Exit status: 0 held on what was observed, 1 violated, 2 inconclusive or an error of the harness.
"""

from __future__ import annotations

import argparse
import collections
import glob
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MFV_REPO", "/repo")
EVIDENCE = os.environ.get("MFV_EVIDENCE") or os.path.join(ROOT, "evidence")

if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
if ROOT not in sys.path:
    sys.path.insert(1, ROOT)


class UnitTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise UnitTimeout()


def short(o, n=400):
    s = o if isinstance(o, str) else repr(o)
    return s if len(s) <= n else s[: n // 2] + f" ...({len(s)})... " + s[-n // 2:]


class Mon:
    """What the monitors saw"""

    MAX_PER_MECH = int(os.environ.get("MFV_MAX", "3"))

    def __init__(self, prop, seed=1, tier="quick"):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.counts = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.mechs = collections.Counter()
        self.problems = []
        self.timings = {}
        self.where = None

    # events
    def count(self, name, n=1):
        self.counts[name] += n

    def case(self, key, nontrivial=True):
        """One evaluation of the oracle on a case identified by key"""
        self.counts["evaluations"] += 1
        if nontrivial:
            if not isinstance(key, (bytes, str)):
                key = repr(key)
            if isinstance(key, str):
                key = key.encode("utf-8", "surrogatepass")
            self.distinct.add(hashlib.blake2b(key, digest_size=8).digest())

    def sample(self, s, p=None):
        if len(self.samples) < 3:
            self.samples.append(short(s, 600))

    def violation(self, mech, detail, payload=None):
        self.mechs[mech] += 1
        if self.mechs[mech] <= self.MAX_PER_MECH:
            self.violations.append(
                {"mechanism": mech, "detail": short(detail, 4000), "payload": payload, "where": self.where}
            )

    def check(self, ok, mech, detail, payload=None):
        self.counts["assertions"] += 1
        if not ok:
            self.violation(mech, detail() if callable(detail) else detail, payload)
        return ok

    def problem(self, s):
        """Something went wrong with the harness, or nothing can be said"""
        if len(self.problems) < 20:
            self.problems.append(s)
        self.counts["problems"] += 1

    def merge(self, o):
        self.counts.update(o.counts)
        self.distinct |= o.distinct
        self.samples += o.samples
        for v in o.violations:
            self.violations.append(v)
        self.mechs.update(o.mechs)
        self.problems += o.problems


def from_repo(tb):
    """Is the innermost frame (leaving aside libraries) one of the code under test?"""
    frames = traceback.extract_tb(tb)
    for f in reversed(frames):
        if f.filename.startswith(os.path.join(REPO, "mappyfile")):
            return True
        if f.filename.startswith(ROOT):
            return False
    return False


def run_unit(mod, job, i, mon, limit):
    mon.where = [job, i]
    rng = random.Random(f"{mon.seed}:{mod.PROPERTY}:{job}:{i}")
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod.unit(job, i, rng, mon)
        mon.count("units")
    except UnitTimeout as e:
        at = " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_tb(e.__traceback__)[:-7:-1])
        mon.problem(f"unit {job}:{i} did not finish in {limit} s, in {at}")
        mon.count("unit_timeouts")
    except Exception as e:  # noqa
        tb = traceback.format_exc()
        if from_repo(e.__traceback__):
            # the workload of every check only makes calls that have to succeed outside an explicit handler
            mon.violation(f"raised:{type(e).__name__}", tb[-3000:])
        else:
            mon.problem(f"unit {job}:{i}: {tb[-2500:]}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def worker(mod, shards, nxt, conn, seed, tier, deadline, wid):
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    mon = Mon(mod.PROPERTY, seed, tier)
    limit = getattr(mod, "UNIT_LIMIT", 60)
    try:
        if hasattr(mod, "start"):
            mod.start(tier)
        while True:
            with nxt.get_lock():
                k = nxt.value
                nxt.value += 1
            if k >= len(shards):
                break
            job, lo, hi = shards[k]
            for i in range(lo, hi):
                if time.time() > deadline:
                    mon.count("units_skipped")
                    mon.count("skipped:" + job)
                    continue
                conn.send(("at", job, i)) if getattr(mod, "REPORT_UNITS", False) else None
                t0 = time.time()
                run_unit(mod, job, i, mon, limit)
                mon.counts["ms:" + job] += int((time.time() - t0) * 1000)
                if len(mon.problems) > 10:
                    break
        if hasattr(mod, "finish"):
            mod.finish(mon)
    except BaseException:  # noqa
        mon.problem("worker: " + traceback.format_exc()[-2500:])
    conn.send(("done", mon))
    conn.close()
    os._exit(0)


def load_known(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as f:
        return [e for e in json.load(f)["findings"] if e["property"] == prop]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--job")
    ap.add_argument("--unit", type=int)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--cap", type=float)
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    logging.disable(logging.CRITICAL)

    prop = a.check.upper()
    try:
        import mappyfile

        if not os.path.abspath(mappyfile.__file__).startswith(os.path.abspath(REPO) + os.sep):
            print(f"ERROR: mappyfile was imported from {mappyfile.__file__}")
            return 2
        mod = importlib.import_module("checks." + prop.lower())
    except Exception:  # noqa
        traceback.print_exc()
        print("ERROR: the code or the check cannot be imported")
        return 2

    seed = a.seed
    if a.replay:
        with open(a.replay, encoding="utf-8") as f:
            rep = json.load(f)
        seed, tier = rep["seed"], rep["tier"]
        a.job, a.unit = rep["where"]

    if a.job is not None and a.unit is not None:
        signal.signal(signal.SIGALRM, _alarm)
        mon = Mon(prop, seed, tier)
        if hasattr(mod, "start"):
            mod.start(tier)
        run_unit(mod, a.job, a.unit, mon, getattr(mod, "UNIT_LIMIT", 60) * 4)
        if hasattr(mod, "finish"):
            mod.finish(mon)
        for v in mon.violations:
            print(v["mechanism"], "\n   ", v["detail"])
        for p in mon.problems:
            print("PROBLEM", p)
        print(dict(mon.counts))
        return 1 if mon.violations else 0

    shards = []
    for job, n, size in mod.plan(tier):
        if a.job is not None and job != a.job:
            continue
        for lo in range(0, n, size):
            shards.append((job, lo, min(n, lo + size)))

    cap = a.cap or (getattr(mod, "CAP", {}).get(tier) or (400 if tier == "quick" else 780))
    deadline = t0 + cap
    if hasattr(mod, "setup"):
        mod.setup(tier)
    nxt = mp.Value("i", 0)
    procs = []
    for w in range(a.jobs):
        r, s = mp.Pipe(duplex=False)
        pid = os.fork()
        if pid == 0:
            r.close()
            worker(mod, shards, nxt, s, seed, tier, deadline, w)
        s.close()
        procs.append([pid, r, None])
    total = Mon(prop, seed, tier)
    grace = getattr(mod, "UNIT_LIMIT", 60) + 30
    left = list(procs)
    while left:
        ready = mp.connection.wait([p[1] for p in left], timeout=max(0.1, deadline + grace - time.time()))
        if not ready:
            for p in left:
                os.kill(p[0], signal.SIGKILL)
                if p[2] and hasattr(mod, "killed"):
                    mod.killed(total, p[2])
                total.problem(f"a worker was stopped by the watchdog, at {p[2]}")
            break
        for p in list(left):
            if p[1] in ready:
                try:
                    m = p[1].recv()
                except EOFError:
                    total.problem(f"a worker died, at {p[2]}")
                    if p[2] and hasattr(mod, "killed"):
                        mod.killed(total, p[2])
                    left.remove(p)
                    continue
                if m[0] == "at":
                    p[2] = m[1:]
                else:
                    total.merge(m[1])
                    left.remove(p)
    for p in procs:
        try:
            os.waitpid(p[0], 0)
        except ChildProcessError:
            pass
    if hasattr(mod, "conclude"):
        mod.conclude(total, tier)

    return verdict(mod, total, tier, seed, t0)


def verdict(mod, total, tier, seed, t0):
    prop = mod.PROPERTY
    status = 0
    known = load_known(prop)
    suppressed = collections.Counter()
    fresh = []
    for v in total.violations:
        k = next((e for e in known if e["status"] == "known" and v["mechanism"] == e["mechanism"]), None)
        if k:
            suppressed[k["mechanism"]] += 1
        else:
            fresh.append(v)
    for e in known:
        if e["status"] != "known":
            continue
        if suppressed[e["mechanism"]]:
            print(f"KNOWN-FINDING: property={prop} {e['what']}")
        else:
            print(f"note: the known finding {e['mechanism']} was not observed in this run")

    outdir = os.path.join(EVIDENCE, "replays")
    os.makedirs(outdir, exist_ok=True)
    for f in glob.glob(os.path.join(outdir, f"{prop}-*.json")):
        os.remove(f)
    fresh.sort(key=lambda v: (v["mechanism"], str(v["where"])))
    seen = collections.Counter()
    n = 0
    for v in fresh:
        seen[v["mechanism"]] += 1
        if seen[v["mechanism"]] > int(os.environ.get("MFV_SHOW", "1")) or n >= 12:
            continue
        path = os.path.join(outdir, f"{prop}-{n}.json")
        n += 1
        with open(path, "w", encoding="utf-8", errors="backslashreplace") as f:
            json.dump(
                {
                    "property": prop,
                    "seed": seed,
                    "tier": tier,
                    "where": v["where"],
                    "mechanism": v["mechanism"],
                    "detail": v["detail"],
                    "payload": v["payload"],
                    "how": f"cd {ROOT} && /opt/venv/bin/python -m mfv.runner {prop} --replay {path}",
                },
                f,
                indent=1,
                default=repr,
            )
        print(f"VIOLATION property={prop} replay={path}")
        print(f"   {v['mechanism']} (seen {total.mechs[v['mechanism']]} times): {short(v['detail'], 700)}")
    if fresh:
        status = 1

    required = mod.REQUIRED(tier) if hasattr(mod, "REQUIRED") else {}
    short_of = {k: [total.counts[k], v] for k, v in required.items() if total.counts[k] < v}
    if status == 0:
        for p in total.problems[:5]:
            print("PROBLEM", p)
        if total.problems or short_of:
            print(f"INCONCLUSIVE property={prop} problems={len(total.problems)} short_of={short_of}")
            status = 2

    counts = dict(sorted(total.counts.items()))
    evaluations = counts.pop("evaluations", 0)
    times = {k[3:]: v / 1000 for k, v in counts.items() if k.startswith("ms:")}
    counts = {k: v for k, v in counts.items() if not k.startswith("ms:")}
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(total.distinct),
            "rule": mod.RULE,
            "samples": total.samples[:6] or ["(none recorded)"],
            "observed": counts,
            "seconds_by_job": times,
            "known_findings_observed": dict(suppressed),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    if getattr(mod, "EXHAUSTIVE", False) and not counts.get("units_skipped"):
        ev["coverage"]["exhaustive_parts"] = mod.EXHAUSTIVE
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, f"{prop}.json")
    with open(path + ".tmp", "w", encoding="utf-8", errors="backslashreplace") as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(path + ".tmp", path)
    print(
        f"{prop} {tier} seed={seed}: evaluations={evaluations} distinct={len(total.distinct)} "
        f"violations={len(fresh)} problems={len(total.problems)} skipped={counts.get('units_skipped', 0)} "
        f"wall={time.time() - t0:.1f}s exit={status}"
    )
    return status


if __name__ == "__main__":
    import mfv.runner as _r  # one copy of the classes, also when unpickling

    sys.exit(_r.main())
