"""C01: load, print, load keeps objects, keys, order, nesting and values, and the printed text always loads"""

from __future__ import annotations

from mfv import common, doc, gen, matrix, mutate
from mfv.common import mappyfile

PROPERTY = "C01"
LEVEL = "exploration"
RULE = (
    "cases are Mapfile texts: every block type x keyword x schema alternative, x every value shape the grammar reads, "
    "in first, middle and last position; the Mapfiles of the repository; random documents (schema-valid and loose, "
    "several roots, nesting to 5); token-level mutants of those. A case counts as non-trivial when loads accepts it "
    "and its dictionary holds at least one keyword; texts are counted once (hash)."
)
ASSUMPTIONS = [
    "the default printing options are used here; C06 varies them",
    "left out, and recorded as known findings with probes: keyword strings holding the output quote, strings "
    "ending in a backslash, quoted strings that read as an expression on keywords that take expressions, "
    "numbers beyond the range of doubles",
]


def start(tier):
    global DOCS, SHAPES
    common.corpus()
    DOCS = list(matrix.documents())
    SHAPES = list(matrix.shape_documents())


def setup(tier):
    common.fast_lark()
    start(tier)


def plan(tier):
    big = tier == "thorough"
    return [
        ("probe", 1, 1),
        ("matrix", 145, 5),
        ("shapes", 261, 5),
        ("corpus", len(common.corpus()), 8),
        ("random", 20000 if big else 2800, 10),
        ("mutant", 20000 if big else 2000, 10),
        ("history", 300 if big else 80, 4),
    ]


def REQUIRED(tier):
    return {"evaluations": 8000, "corpus_ok": 300, "mutants_accepted": 300, "random_docs": 3000}


def round_trip(mon, text, label, payload=None, d=None):
    if d is None:
        d = common.loads(text)
    out = mappyfile.dumps(d)
    d2, e = common.try_loads(out)
    mon.case(text, nontrivial=any(True for _ in common.strings_of(d)))
    if e is not None:
        mon.violation(
            "printed-text-rejected",
            f"{label}: the printed text is not accepted: {common.where(e)}\n--- text\n{text}\n--- printed\n{out}",
            payload,
        )
        return None
    r = common.rt_same(d, d2)
    if r:
        mon.violation("content-changed", f"{label}: {r[1]}\n--- text\n{text}\n--- printed\n{out}", payload)
        return None
    return out


KNOWN_PROBES = [
    ("output-quote", "LAYER NAME 'say \"hi\"' TYPE POINT END"),
    ("output-quote", "CLASS EXPRESSION 'say \"hi\"' END"),
    ("backslash-end", "MAP SHAPEPATH 'C:\\data\\' NAME \"x\" END"),
    ("lookalike", "CLASS EXPRESSION \"(a)\" END"),
    ("lookalike", "CLASS TEXT \"[a]\" EXPRESSION \"{a}\" END"),
    ("keyword", "MAP SIZE A 400 300 SIZE 1 2 END"),
    ("chain", "CLASS EXPRESSION (" + "[a] = 1 OR " * 300 + "[a] = 2) END"),
]


def probe(mon):
    for mech, text in KNOWN_PROBES:
        d = common.loads(text)
        d2, e = common.try_loads(mappyfile.dumps(d))
        mon.count("probes")
        if e is not None or common.rt_same(d, d2):
            mon.violation("known:" + mech, f"{common.short(text)} -> {common.short(mappyfile.dumps(d))}", {"text": text})


def unit(job, i, rng, mon):
    if job == "probe":
        return probe(mon)
    if job == "matrix":
        for label, items, slot, it in DOCS[i * 10:i * 10 + 10]:
            b = items[0]
            for where in ("alone", "first", "middle", "last"):
                its = [x for x in b.items if x is not it]
                fill = [doc.Attr("name", doc.Val("str", "f1")), doc.Attr("group", doc.Val("str", "f2"))]
                fill = [f for f in fill if f.kw != getattr(it, "kw", None) and b.type == "layer"]
                if where == "alone":
                    new = [it]
                elif where == "first":
                    new = [it] + its + fill
                elif where == "middle":
                    new = its + [it] + fill
                else:
                    new = fill + its + [it]
                text = doc.render([doc.Block(b.type, new)], doc.Style(rng, exprs=True)).text
                round_trip(mon, text, label + " " + where)
        return
    if job == "shapes":
        for label, items, slot, it in SHAPES[i * 40:i * 40 + 40]:
            text = doc.render(items, doc.Style(rng)).text
            d, e = common.try_loads(text)
            if e is not None:
                mon.count("shapes_rejected")
                continue
            if common.unrepresentable(text, d):
                mon.count("left_out")
                continue
            round_trip(mon, text, label, d=d)
        return
    if job == "corpus":
        fn, text = common.corpus()[i]
        d, e = common.try_loads(text)
        if e is not None or d is None:
            mon.count("corpus_rejected")
            return
        if common.unrepresentable(text, d):
            mon.count("left_out")
            mon.count("corpus_left_out")
            return
        if round_trip(mon, text, fn, d=d) is not None:
            mon.count("corpus_ok")
        return
    if job == "random":
        for k in range(8):
            mode = rng.choice(["valid", "loose"])
            g = gen.Gen(rng, mode, multiline=rng.random() < 0.3, escapes=rng.random() < 0.2, avoid_quote='"',
                        includes=rng.random() < 0.2, big=rng.random() < 0.05)
            items = g.document()
            text = doc.render(items, doc.Style(rng, comments=rng.random() < 0.4)).text
            mon.count("random_docs")
            mon.count("random_objects", g.nblocks)
            d = common.loads(text)
            out = round_trip(mon, text, mode, d=d)
            if k == 0 and out:
                mon.sample(text)
        return
    if job == "mutant":
        for k in range(12):
            text = mutate.mutant(rng, mutate.source(rng))
            d, e = common.try_loads(text)
            if e is not None:
                mon.count("mutants_rejected")
                continue
            if common.unrepresentable(text, d):
                mon.count("left_out")
                continue
            if not d:
                continue
            mon.count("mutants_accepted")
            round_trip(mon, text, "mutant", d=d)
        return
    if job == "history":
        # the same document printed and loaded many times over
        g = gen.Gen(rng, "loose", avoid_quote='"')
        text = doc.render(g.document(), doc.Style(rng)).text
        d = first = common.loads(text)
        for k in range(5):
            d = common.loads(mappyfile.dumps(d))
        r = common.rt_same(first, d)
        mon.case(text + "#5")
        mon.check(not r, "content-changed", lambda: f"after 5 rounds: {r[1]}\n--- text\n{text}")
