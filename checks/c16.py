"""C16: the layout of printed Mapfiles"""

from __future__ import annotations

import copy
import itertools

from mfv import common, doc, gen, matrix
from mfv.common import mappyfile
from mfv.layout import Layout

PROPERTY = "C16"
LEVEL = "exploration"
RULE = (
    "cases are (dictionary, printing options): every block type x keyword x alternative, corpus files, random documents "
    "(with and without kept comments) x options drawn from the cross product, and the whole cross product on a few rich "
    "documents. A monitor tokenises the printed text independently and checks every gap between tokens. Non-trivial: at "
    "least one keyword line; counted by text and options."
)
ASSUMPTIONS = ["strings never hold the output quote (see C01)", "METADATA pairs and CONFIG lines are no simple keywords"]


def start(tier):
    global DOCS
    common.corpus()
    DOCS = list(matrix.documents())


def setup(tier):
    common.fast_lark()
    start(tier)


ALL = [
    dict(zip(common.DEFAULTS, c))
    for c in itertools.product(common.INDENTS, common.SPACERS, common.QUOTES, common.NEWLINES, [0, 1], [0, 1], [0, 1])
]


def plan(tier):
    big = tier == "thorough"
    return [
        ("matrix", 145, 5),
        ("corpus", len(common.corpus()), 8),
        ("random", 12000 if big else 700, 10),
        ("cross", 64 if big else 4, 1),
        ("lists", 600 if big else 60, 10),
        ("small", 4000 if big else 400, 10),
    ]


def REQUIRED(tier):
    return {"evaluations": 15000, "objects_aligned": 5000, "end_comments": 5000, "with_comments": 300, "deep_5": 50}


def observe(mon, d, o, label, text, comments=False):
    out = mappyfile.dumps(copy.deepcopy(d), **o)
    m = Layout(out, o)
    e = m.check(comments)
    mon.case(text + repr(o), m.lines > 2)
    mon.count("lines", m.lines)
    mon.count("blocks", m.blocks)
    mon.count("objects_aligned", m.aligned)
    mon.count("end_comments", m.end_comments)
    mon.counts[f"deep_{m.maxdepth}"] += 1
    if comments:
        mon.count("with_comments")
    if e:
        mon.violation("layout", f"{label} {o}: {e}\n{out}", {"text": text, "options": o})
    return out


def unit(job, i, rng, mon):
    if job == "matrix":
        for label, items, slot, it in DOCS[i * 10:i * 10 + 10]:
            text = doc.render(items, doc.Style(rng, seps="line")).text
            d = common.loads(text)
            for o in (common.options(rng, align_values=True), common.options(rng)):
                observe(mon, d, o, label, text)
    elif job == "corpus":
        fn, text = common.corpus()[i]
        d, e = common.try_loads(text)
        if e is not None or not d:
            return
        for comments in (False, True):
            for k in range(3):
                o = common.options(rng)
                if common.unrepresentable(text, d, o["quote"]):
                    continue
                if comments and o["newlinechar"] == "\r":
                    continue
                dd = d if not comments else common.loads(text, include_comments=True)
                if comments and any("\n" in c or "\r" in c for c in all_comments(dd)):
                    continue
                observe(mon, dd, o, fn, text, comments)
    elif job == "random":
        for k in range(4):
            g = gen.Gen(rng, rng.choice(["valid", "loose"]), multiline=rng.random() < 0.2, avoid_quote="'\"",
                        includes=rng.random() < 0.2, maxdepth=rng.choice([3, 5, 7]))
            items = g.document()
            comments = rng.random() < 0.25
            st = doc.Style(rng, comments=comments, ccomments=False)
            text = doc.render(items, st).text
            d = common.loads(text, include_comments=comments)
            for n in range(3):
                o = common.options(rng)
                if comments and o["newlinechar"] == "\r":
                    continue
                out = observe(mon, d, o, "random", text, comments)
            if k == 0:
                mon.sample(text)
    elif job == "cross":
        g = gen.Gen(rng, "valid", multiline=False, avoid_quote="'\"", kw_p=0.6)
        text = doc.render([g.block(["map", "layer", "class", "symbol"][i % 4])], doc.Style(rng)).text
        d = common.loads(text)
        for o in ALL:
            observe(mon, d, o, "cross", text)
    elif job == "small":
        # a few keywords: those that are not aligned can be longer than those that are
        for k in range(5):
            g = gen.Gen(rng, "loose", avoid_quote="'\"", maxdepth=1)
            t = rng.choice(gen.vocab.TYPES)
            simple = [s for s in gen.vocab.SLOTS[t].values() if s.cat in ("simple", "repeated")]
            others = [s for s in gen.vocab.SLOTS[t].values() if s.cat not in ("simple", "repeated")]
            items = []
            for s in sorted(rng.sample(simple, min(len(simple), 6)), key=lambda s: len(s.kw))[:rng.randint(1, 3)] + rng.sample(others, min(len(others), rng.randint(1, 3))):
                items += g.slot_items(s)
            rng.shuffle(items)
            gen.fix_ambiguous(items, t, rng)
            text = doc.render([doc.Block(t, items)], doc.Style(rng)).text
            d = common.loads(text)
            mon.count("small")
            for n in range(2):
                observe(mon, d, common.options(rng, align_values=True), "small", text)
    elif job == "lists":
        # lists of roots, partial key-value blocks, empty blocks
        g = gen.Gen(rng, "loose", avoid_quote="'\"")
        items = [g.kv(k) for k in rng.sample(["metadata", "validation", "connectionoptions"], rng.randint(0, 2))]
        items += [doc.Block(t, []) for t in rng.sample(list(gen.vocab.TYPES), 2)]
        items += [g.block("feature"), g.block("class")]
        rng.shuffle(items)
        text = doc.render(items, doc.Style(rng)).text
        d = common.loads(text)
        for n in range(4):
            observe(mon, d, common.options(rng), "list", text)


def all_comments(d):
    if isinstance(d, dict):
        for k, v in dict.items(d):
            if k == "__comments__":
                for c in v.values():
                    yield from c if isinstance(c, list) else [c]
            else:
                yield from all_comments(v)
    elif isinstance(d, list):
        for v in d:
            yield from all_comments(v)
