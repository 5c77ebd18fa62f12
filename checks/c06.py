"""C06: formatting options never change content"""

from __future__ import annotations

import copy
import itertools

from mfv import common, doc, gen, matrix, mutate, vocab
from mfv.common import mappyfile

PROPERTY = "C06"
LEVEL = "exploration"
RULE = (
    "cases are (dictionary, printing options). loads(dumps(d, **o)) is compared strictly with loads(dumps(d)); with "
    "separate_complex_types the keys of every object must be its simple keys in their order followed by its block-valued "
    "keys in their order, with equal values. Options: the whole cross product (6 indents x 4 spacers x 2 quotes x 4 "
    "newlines x 8 flags) on rich documents, random members elsewhere. Non-trivial: the dictionary holds a keyword; counted "
    "by (default text, options)."
)
ASSUMPTIONS = [
    "newlinechar is a line break (LF, CRLF, CR, LF LF) and spacer is white space or empty",
    "dictionaries with the values listed under known findings of C01 (for either quote) are left out",
    "CONFIG is written as a keyword per line, so it may be counted with either group",
]


def start(tier):
    global DOCS, ALL
    common.corpus()
    DOCS = list(matrix.documents())
    ALL = [
        dict(zip(common.DEFAULTS, c))
        for c in itertools.product(common.INDENTS, common.SPACERS, common.QUOTES, common.NEWLINES, [False, True],
                                   [False, True], [False, True])
    ]


def setup(tier):
    common.fast_lark()
    start(tier)


def plan(tier):
    big = tier == "thorough"
    return [
        ("probe", 1, 1),
        ("cross", 480 if big else 48, 1),
        ("matrix", 145, 5),
        ("corpus", len(common.corpus()), 8),
        ("random", 16000 if big else 900, 10),
        ("mutant", 8000 if big else 300, 10),
    ]


def REQUIRED(tier):
    return {"evaluations": 12000, "separated_objects": 3000, "moved_keys": 500}


BLOCKY = {"points", "pattern", "projection"} | set(vocab.KV_BLOCKS) | vocab.OBJECT_LISTS


def blocky(k, v):
    if k == "config":
        return None  # either
    if k in ("points", "pattern", "projection"):
        return True
    if isinstance(v, dict):
        return True
    return k in vocab.OBJECT_LISTS and isinstance(v, list)


def separated(mon, a, b, path=""):
    """b has the keys of a, block values after simple values; else a description"""
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return f"{path}: keys {list(a)} became {list(b) if isinstance(b, dict) else b!r}"
        t = a.get("__type__")
        if t not in vocab.KV_BLOCKS and t is not None:
            ka = [k for k in a if not doc.is_hidden(k) and k != "config"]
            kb = [k for k in b if not doc.is_hidden(k) and k != "config"]
            want = [k for k in ka if not blocky(k, a[k])] + [k for k in ka if blocky(k, a[k])]
            mon.count("separated_objects")
            if want != ka:
                mon.count("moved_keys")
            if kb != want:
                return f"{path}: keys {ka} became {kb}, expected {want}"
        elif [k for k in a if k != "__type__"] != [k for k in b if k != "__type__"]:
            return f"{path}: keys {list(a)} became {list(b)}"
        for k in a:
            e = separated(mon, a[k], b[k], f"{path}/{k}")
            if e:
                return e
        return None
    if isinstance(a, list) and any(isinstance(x, dict) for x in a):
        if not isinstance(b, list) or len(a) != len(b):
            return f"{path}: {len(a)} objects became {b!r}"
        for n, (x, y) in enumerate(zip(a, b)):
            e = separated(mon, x, y, f"{path}[{n}]")
            if e:
                return e
        return None
    return doc.same(a, b, path)


def compare(mon, d, base, o, label, base_text):
    out = mappyfile.dumps(copy.deepcopy(d), **o)
    mon.case(base_text + repr(sorted(o.items())), len(base_text) > 12)
    d2, e = common.try_loads(out)
    if e is not None:
        mon.violation("rejected", f"{label} {o}: {common.where(e)}\n{out}")
        return
    r = separated(mon, base, d2) if o["separate_complex_types"] else doc.same(base, d2)
    if r:
        mech = "order" if o["separate_complex_types"] and not doc.same(sort(base), sort(doc.plain(d2))) else "content"
        mon.violation(mech, f"{label} {o}: {r}\n--- default\n{base_text}\n--- with the options\n{out}")


def sort(d):
    if isinstance(d, dict):
        return {k: sort(d[k]) for k in sorted(d)}
    if isinstance(d, list):
        return [sort(x) for x in d]
    return d


def run(mon, d, opts, label):
    base_text = mappyfile.dumps(copy.deepcopy(d))
    b, e = common.try_loads(base_text)
    if e is not None:
        mon.violation("rejected", f"{label} default options: {common.where(e)}\n{base_text}")
        return
    base = doc.plain(b)
    for o in opts:
        compare(mon, d, base, o, label, base_text)


PROBES = [
    ("output-quote", "LAYER NAME 'say \"hi\"' TYPE POINT END", {"quote": "'"}),
    ("output-quote", "LAYER NAME \"it's\" TYPE POINT END", {"quote": "'"}),
    ("output-quote", "CLASS EXPRESSION \"it's\" END", {"quote": "'"}),
]


def unit(job, i, rng, mon):
    if job == "probe":
        for mech, text, o in PROBES:
            d = common.loads(text)
            a, e1 = common.try_loads(mappyfile.dumps(d))
            b, e2 = common.try_loads(mappyfile.dumps(d, **o))
            mon.count("probes")
            if e1 is not None or e2 is not None or a != b:
                mon.violation("known:" + mech, f"{text} with {o}: {a} {b}")
    elif job == "cross":
        g = gen.Gen(rng, rng.choice(["valid", "loose"]), avoid_quote="'\"", maxdepth=3, kw_p=0.25)
        text = doc.render([g.block(rng.choice(["map", "layer", "class", "label", "legend", "web", "symbol"]))],
                          doc.Style(rng)).text
        d = common.loads(text)
        if common.unrepresentable(text, d, '"') or common.unrepresentable(text, d, "'"):
            return
        mon.sample(text)
        run(mon, d, ALL if i % 8 == 0 else rng.sample(ALL, 150), "cross")
        mon.count("full_cross_products", i % 8 == 0)
    elif job == "matrix":
        for label, items, slot, it in DOCS[i * 10:i * 10 + 10]:
            d = common.loads(doc.render(items, doc.Style(rng)).text)
            run(mon, d, [common.options(rng) for _ in range(3)], label)
    else:
        for k in range({"corpus": 1, "random": 4, "mutant": 8}[job]):
            comments = rng.random() < 0.25
            if job == "corpus":
                label, text = common.corpus()[i]
            elif job == "mutant":
                label, text = job, mutate.mutant(rng, mutate.source(rng))
            else:
                g = gen.Gen(rng, rng.choice(["valid", "loose"]), multiline=rng.random() < 0.3, avoid_quote="'\"",
                            includes=rng.random() < 0.2)
                label, text = job, doc.render(g.document(), doc.Style(rng, comments=comments)).text
            d, e = common.try_loads(text)
            if e is not None or not d:
                continue
            if common.unrepresentable(text, d, '"') or common.unrepresentable(text, d, "'"):
                mon.count("left_out")
                continue
            if comments:
                d = common.loads(text, include_comments=True)
                mon.count("with_comments")
            mon.count(job + "_docs")
            run(mon, d, [common.options(rng) for _ in range(5)], label)
