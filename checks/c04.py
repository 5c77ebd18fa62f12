"""C04: printed text is a fixpoint of load and print; printing is deterministic"""

from __future__ import annotations

import copy
import hashlib
import json
import os
import random
import subprocess
import sys

from mfv import common, doc, gen, matrix, mutate
from mfv.common import mappyfile
from mfv.runner import REPO, ROOT

PROPERTY = "C04"
LEVEL = "exploration"
RULE = (
    "cases are (dictionary, printing options): t = dumps(d, **o) must satisfy dumps(loads(t), **o) == t byte for byte and "
    "loads(dumps(loads(t))) == loads(t) strictly (types, key order); the same dictionary printed again, printed as a copy, "
    "after unrelated prints, and in interpreters with other hash seeds gives the same characters. Dictionaries come from the "
    "type x keyword x alternative/shape matrix, corpus, random documents, accepted mutants, and edits of them. Non-trivial: "
    "the text has a keyword; counted by (text, options)."
)
ASSUMPTIONS = ["dictionaries with the values listed under known findings of C01 are left out"]


def start(tier):
    global DOCS, SHAPES
    common.corpus()
    DOCS = list(matrix.documents())
    SHAPES = list(matrix.shape_documents())


def setup(tier):
    common.fast_lark()
    start(tier)


def plan(tier):
    big = tier == "thorough"
    return [
        ("hashseed", 8 if big else 3, 1),
        ("matrix", 145, 5),
        ("shapes", 261, 5),
        ("corpus", len(common.corpus()), 8),
        ("random", 16000 if big else 900, 10),
        ("mutant", 8000 if big else 400, 10),
    ]


def REQUIRED(tier):
    return {"evaluations": 12000, "hash_seed_runs": 3, "reprints": 5000}


def fixpoint(mon, d, o, label, source):
    t = mappyfile.dumps(copy.deepcopy(d), **o)
    mon.case(t + repr(sorted(o.items())), t.count(o["newlinechar"]) > 1)
    d1, e = common.try_loads(t)
    if e is not None:
        mon.violation("not-reloadable", f"{label} {o}: {common.where(e)}\n{t}")
        return
    t2 = mappyfile.dumps(copy.deepcopy(d1), **o)
    if t2 != t:
        mon.violation("not-idempotent", f"{label} {o}\n--- first\n{t}\n--- second\n{t2}", {"source": source})
        return
    d2 = common.loads(t2)
    r = doc.same(doc.plain(d1), d2)
    if r:
        mon.violation("reload-differs", f"{label} {o}: {r}\n{t}", {"source": source})
    # content of the default formatting as well
    if common.unrepresentable(t, d1):
        return
    r = doc.same(doc.plain(d1), common.loads(mappyfile.dumps(d1)))
    if r:
        mon.violation("reload-differs", f"{label} {o}, then default options: {r}\n{t}", {"source": source})


def deterministic(mon, d, o, rng, label):
    """separate_complex_types reorders its argument, so every print gets its own copy"""
    outs = [mappyfile.dumps(copy.deepcopy(d), **o)]
    mappyfile.dumps({"__type__": "map", "name": "other"}, indent=rng.randint(0, 3))
    outs.append(mappyfile.dumps(copy.deepcopy(d), **o))
    outs.append(mappyfile.dumps(json.loads(json.dumps(d)), **o))
    d3 = copy.deepcopy(d)
    if not o["separate_complex_types"]:
        outs.append(mappyfile.dumps(d3, **o))
        outs.append(mappyfile.dumps(d3, **o))
    mon.count("reprints", len(outs) - 1)
    for x in outs[1:]:
        if x != outs[0]:
            mon.violation("not-deterministic", f"{label} {o}\n--- once\n{outs[0]}\n--- again\n{x}")
            break


CHILD = """
import sys, hashlib, random
sys.argv = ["x"]
from mfv import runner, common
from checks import c04
print(c04.digest({seed}))
"""


def digest(seed):
    """hashes of many prints, in order"""
    import copy

    start("quick")
    common.fast_lark()
    rng = random.Random(seed)
    h = []
    for n in range(60):
        g = gen.Gen(rng, "loose", avoid_quote="'\"", maxdepth=3)
        d = common.loads(doc.render(g.document(), doc.Style(rng)).text)
        for k in range(3):
            o = common.options(rng)
            h.append(hashlib.blake2b(mappyfile.dumps(copy.deepcopy(d), **o).encode("utf-8", "replace"),
                                     digest_size=6).hexdigest())
    return " ".join(h)


def unit(job, i, rng, mon):
    if job == "hashseed":
        seed = rng.randint(0, 10**9)
        outs = []
        for hs in ("0", str(rng.randint(1, 4000000)), "random"):
            env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONPATH=ROOT, MFV_REPO=REPO)
            p = subprocess.run([sys.executable, "-c", CHILD.format(seed=seed)], env=env, cwd=ROOT, capture_output=True,
                               text=True, timeout=120)
            if p.returncode:
                mon.problem(f"child: {p.stderr[-1500:]}")
                return
            outs.append(p.stdout.split())
            mon.count("hash_seed_runs")
            mon.count("hash_seed_prints", len(outs[-1]))
        for k, hs in enumerate(zip(*outs)):
            if len(set(hs)) != 1:
                mon.violation("not-deterministic", f"print {k} of generator seed {seed} differs between interpreters")
                break
        return
    if job == "matrix":
        for label, items, slot, it in DOCS[i * 10:i * 10 + 10]:
            text = doc.render(items, doc.Style(rng)).text
            d = common.loads(text)
            for o in (dict(common.DEFAULTS), common.options(rng)):
                fixpoint(mon, d, o, label, text)
        return
    if job == "shapes":
        for label, items, slot, it in SHAPES[i * 40:i * 40 + 40]:
            text = doc.render(items, doc.Style(rng)).text
            d, e = common.try_loads(text)
            if e is not None:
                continue
            o = common.options(rng)
            if common.unrepresentable(text, d, o["quote"]):
                mon.count("left_out")
                continue
            fixpoint(mon, d, o, label, text)
        return
    if job == "corpus":
        fn, text = common.corpus()[i]
        d, e = common.try_loads(text)
        if e is not None or not d:
            return
        for k in range(3):
            o = common.options(rng) if k else dict(common.DEFAULTS)
            if common.unrepresentable(text, d, o["quote"]):
                mon.count("left_out")
                continue
            fixpoint(mon, d, o, fn, text)
            if k == 1:
                deterministic(mon, d, o, rng, fn)
        return
    n = 6 if job == "random" else 10
    for k in range(n):
        if job == "random":
            g = gen.Gen(rng, rng.choice(["valid", "loose"]), multiline=rng.random() < 0.3, escapes=rng.random() < 0.2,
                        avoid_quote="'\"" if rng.random() < 0.8 else '"', includes=rng.random() < 0.2)
            text = doc.render(g.document(), doc.Style(rng, comments=rng.random() < 0.3)).text
            d = common.loads(text)
            if k == 0:
                mon.sample(text)
        else:
            text = mutate.mutant(rng, mutate.source(rng))
            d, e = common.try_loads(text)
            if e is not None or not d:
                continue
            mon.count("mutants_accepted")
        for m in range(2):
            o = common.options(rng)
            if common.unrepresentable(text, d, o["quote"]):
                mon.count("left_out")
                continue
            fixpoint(mon, d, o, job, text)
            if m == 0:
                deterministic(mon, d, o, rng, job)
