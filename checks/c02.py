"""C02: the dictionary loads returns is the one the documentation promises for the text"""

from __future__ import annotations

import re
import itertools

from mfv import common, doc, gen, matrix, mutate, reader, vocab
from mfv.doc import Attr, Block, Config, KV, Pairs, Proj, Val

PROPERTY = "C02"
LEVEL = "exploration"
RULE = (
    "cases are texts written from documents of our own (never parsed by mappyfile), so that the promised dictionary is known "
    "before loads is called; the two are compared strictly (keys, key order, nesting, types, values; expressions by "
    "structure). Every type x keyword x alternative in four positions; every keyword x value shape; every parent x child "
    "block, repeated and interleaved; keywords, blocks and keys given twice; every key-value block x key x value spelling; "
    "random documents with random surface syntax. Files of the repository and mutants: a token census (nothing dropped or "
    "invented). Non-trivial: at least one keyword; counted by text."
)
ASSUMPTIONS = [
    "a value shape the grammar rejects for a keyword is not a case (C19 decides that the alternatives of the schemas load)",
    "the position of __type__ in key-value blocks is free",
]

PAIRS = [(c, p, key, many) for c in vocab.ROOT_TYPES for p, key, many in vocab.PARENTS[c]]


def start(tier):
    global DOCS, SHAPES
    common.corpus()
    DOCS = list(matrix.documents())
    SHAPES = list(matrix.shape_documents())


def setup(tier):
    common.fast_lark()
    start(tier)


def plan(tier):
    big = tier == "thorough"
    return [
        ("matrix", 145, 5),
        ("shapes", 261, 5),
        ("nest", len(PAIRS), 4),
        ("strings", 60 if big else 60, 2),
        ("kv", 40 if big else 40, 2),
        ("numbers", 20 if big else 20, 2),
        ("random", 24000 if big else 4500, 10),
        ("twice", 12000 if big else 2500, 10),
        ("census", len(common.corpus()), 8),
        ("mutant", 12000 if big else 1500, 10),
    ]


def REQUIRED(tier):
    return {"evaluations": 12000, "random_docs": 3000, "given_twice": 2000, "census_ok": 200, "census_tokens": 20000}


def compare(mon, text, items, label):
    mon.case(text, len(text) > 12)
    d, e = common.try_loads(text)
    if e is not None:
        mon.violation("rejected", f"{label}: {common.where(e)}\n--- text\n{text}")
        return None
    r = doc.same(doc.model(items), d)
    if r:
        mon.violation("dictionary", f"{label}: {r}\n--- text\n{text}\n--- dictionary\n{common.short(repr(doc.plain(d)), 2500)}")
    return d


FILL = [Attr("name", Val("str", "f1")), Attr("group", Val("str", "f2"))]


def nest(mon, rng, i):
    c, p, key, many = PAIRS[i]
    for k in range(12):
        child = [matrix.minimal(c) for _ in range(rng.choice([1, 2, 3]) if many else 1)]
        g = gen.Gen(rng, "loose", maxdepth=1, kw_p=0.2)
        child = [g.block(c, depth=1) if rng.random() < 0.5 else b for b in child]
        others = [it for it in g.block(p, depth=1).items if getattr(it, "kw", None) != key][:4]
        items = child + others
        rng.shuffle(items)
        # the whole chain of parents up to a root
        b = Block(p, items)
        for _ in range(rng.randint(0, 3)):
            if not vocab.PARENTS[b.type]:
                break
            q = rng.choice(vocab.PARENTS[b.type])
            sib = [matrix.minimal(c)] if c in [x.child for x in vocab.SLOTS[q[0]].values() if x.cat == "list"] else []
            b = Block(q[0], sib + [b]) if rng.random() < 0.5 else Block(q[0], [b] + sib)
        doc_items = [b] if rng.random() < 0.8 or b.type == "symbolset" else [b, matrix.minimal(c)]
        mon.count("nested_pairs")
        compare(mon, doc.render(doc_items, doc.Style(rng)).text, doc_items, f"{c} in {p}")


WORD_SLOTS = [("layer", "name"), ("layer", "data"), ("class", "title"), ("class", "expression"), ("label", "text"),
              ("layer", "filter"), ("layer", "classitem"), ("web", "imagepath"), ("map", "fontset"), ("symbol", "image"),
              ("label", "font"), ("style", "geomtransform"), ("layer", "styleitem"), ("join", "table"), ("legend", "template")]


def strings(mon, rng, i):
    """every string of the pools as the value of a few keywords: only the outer quotes go"""
    pool = list(gen.STRINGS) + gen.DQ_STRINGS + gen.ESC_STRINGS + gen.MULTILINE + gen.EXPRLIKE + gen.WORDS
    for n, s in enumerate(pool):
        if n % 24 != i % 24 and rng.random() > 0.1:
            continue
        for t, kw in WORD_SLOTS:
            for q in "\"'":
                if not doc._can_quote(s, q):
                    continue
                items = [Block(t, [Attr(kw, Val("str", s)), Attr("group", Val("str", "z"))][:2 if t == "layer" else 1])]
                compare(mon, doc.render(items, doc.Style(rng, quotes=q)).text, items, f"{t}.{kw} {s!r}")
                mon.count("strings")
    for t, kw in (("layer", "processing"), ("outputformat", "formatoption"), ("composite", "compfilter"), ("map", "include")):
        vals = [rng.choice([x for x in pool if x.lower() != "include"]) for _ in range(rng.randint(1, 5))]
        items = [Block(t, [Attr(kw, Val("str", s)) for s in vals if not ('"' in s and "'" in s) and not s.endswith("\\")])]
        compare(mon, doc.render(items, doc.Style(rng)).text, items, f"{t}.{kw}")


def kv(mon, rng, i):
    pool = [s for s in gen.STRINGS + gen.DQ_STRINGS + gen.MULTILINE + gen.WORDS + gen.Gen.KEYS]
    kws = [(t, s.kw) for t in vocab.TYPES for s in vocab.SLOTS[t].values() if s.cat == "kv"]
    for t, kw in kws:
        for rep in range(3):
            pairs = []
            for n in range(rng.randint(1, 6)):
                k = rng.choice(pool) if rng.random() < 0.7 else gen.odd_key(rng)
                if rng.random() < 0.2 and pairs:  # given again, in another case
                    k = rng.choice(pairs)[0].data.swapcase()
                    if k.lower() not in [p[0].data.lower() for p in pairs]:
                        continue
                    mon.count("given_twice")
                pairs.append((Val("str", k), Val("str", rng.choice(pool))))
            items = [Block(t, [KV(kw, pairs)])]
            compare(mon, doc.render(items, doc.Style(rng, comments=rng.random() < 0.3)).text, items, f"{t}.{kw}")
    for rep in range(6):
        cs = [Config(Val("str", rng.choice(pool)), Val("str", rng.choice(pool))) for n in range(rng.randint(1, 4))]
        pr = Proj([Val("str", s) for s in rng.sample(pool, rng.randint(1, 4))])
        t = rng.choice(["map", "layer"])
        items = [Block(t, (cs if t == "map" else []) + [pr])]
        compare(mon, doc.render(items, doc.Style(rng)).text, items, "config/projection")
    # key-value blocks as roots
    for kw in ("metadata", "validation", "connectionoptions"):
        items = [gen.Gen(rng, "loose").kv(kw) for _ in range(rng.choice([1, 2]))]
        compare(mon, doc.render(items, doc.Style(rng)).text, items, kw)


def numbers(mon, rng, i):
    """numbers in every spelling, alone and in lists, and hex colours in every case"""
    def number():
        sign = rng.choice(["", "", "-", "+"])
        x = rng.random()
        if x < 0.3:
            return sign + str(rng.randint(0, 10 ** rng.randint(1, 18)))
        s = sign + rng.choice(["%d.%d", "%d.", ".%d1"]).replace("%d", str(rng.randint(0, 9999)))
        if rng.random() < 0.4:
            s += rng.choice("eE") + rng.choice(["", "+", "-"]) + str(rng.randint(0, 30))
        return s

    ints = [("map", "resolution"), ("layer", "maxfeatures"), ("label", "buffer"), ("class", "minscaledenom")]
    for rep in range(60):
        t, kw = rng.choice(ints + [("style", "width"), ("layer", "tolerance"), ("style", "angle")])
        s = number()
        v = Val("int" if s.lstrip("+-").isdigit() else "float", s)
        items = [Block(t, [Attr(kw, v)])]
        compare(mon, doc.render(items, doc.Style(rng)).text, items, f"number {s}")
        mon.count("numbers")
        vals = [number() for _ in range(rng.choice([2, 4]))]
        items = [Block("map", [Attr("extent" if len(vals) == 4 else "size", Val("nums", vals))])]
        compare(mon, doc.render(items, doc.Style(rng)).text, items, f"numbers {vals}")
        t, kw = rng.choice([("feature", "points"), ("symbol", "points"), ("style", "pattern"), ("symbol", "points")])
        n = rng.randint(1, 3) if kw == "points" else 1
        items = [Block(t, [Pairs(kw, [(number(), number()) for _ in range(rng.randint(1, 6))]) for _ in range(n)])]
        compare(mon, doc.render(items, doc.Style(rng)).text, items, f"{kw} x {n}")
        h = "#" + "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(rng.choice([3, 6, 8])))
        t, kw = rng.choice([("style", "color"), ("label", "outlinecolor"), ("map", "imagecolor"), ("layer", "name"),
                            ("class", "title"), ("layer", "data")])
        items = [Block(t, [Attr(kw, Val("hex", h))])]
        compare(mon, doc.render(items, doc.Style(rng)).text, items, f"hex {h}")
        a, b = ("#" + "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(6)) for _ in "ab")
        items = [Block("style", [Attr("colorrange", Val("hexrange", [a, b]))])]
        compare(mon, doc.render(items, doc.Style(rng)).text, items, "hex range")


def twice(mon, rng):
    """keywords, keys and blocks given again inside the same object"""
    g = gen.Gen(rng, rng.choice(["valid", "loose"]), maxdepth=3, kw_p=0.25, includes=rng.random() < 0.2)
    items = g.document()
    for b in [x for x in doc.walk(items) if isinstance(x, Block)]:
        slots = vocab.SLOTS[b.type]
        for it in list(b.items):
            if rng.random() < 0.35:
                s = slots.get(getattr(it, "kw", None)) or next((x for x in slots.values() if x.child == getattr(it, "type", "")),
                                                              None)
                if s is None:
                    continue
                g.nblocks = 0
                new = g.slot_items(s, depth=3 if s.cat == "singleton" else 5) or ([matrix.minimal(s.child)] if s.child else [])
                at = rng.randint(0, len(b.items))
                b.items[at:at] = new
                mon.count("given_twice", len(new))
    return items


# ----------------------------------------------------------------------------------------------- the census
def census(mon, text, d, label):
    """
    The scalars of the dictionary, in order, against the tokens of the text. Keys and values of the dictionary must
    be tokens of the text, as often at most; where nothing is given twice, every token is accounted for.
    """
    try:
        toks, _ = reader.tokenize(text)
    except reader.ReadError:
        mon.count("census_unread")
        return
    have = {}
    for t in toks:
        for w in token_keys(t):
            have[w] = have.get(w, 0) + 1
    want = {}
    for w in dict_keys(d):
        want[w] = want.get(w, 0) + 1
    mon.count("census_tokens", len(toks))
    mon.case("census" + text, bool(want))
    low = "".join(text.lower().split())
    for w, n in want.items():
        if have.get(w, 0) < n:
            # tokens that touch (DATAdata) count as two in mutants
            if label == "mutant" and (w[0] == "n" or low.count("".join(w[1:].split())) >= n):
                mon.count("census_glued")
                continue
            mon.violation("invented", f"{label}: {w!r} is {n} times in the dictionary, {have.get(w, 0)} times in the text\n{text}")
            return
    mon.count("census_ok")


def token_keys(t):
    if t.cls == "str":
        return ["s" + t.text.lower()]
    w = t.text
    if t.cls == "bind":
        w = "".join(re.sub(r"/\*.*?\*/|#[^\r\n]*", "", w, flags=re.S).split())
    if t.cls == "word" and "#" in w:
        w = w[:w.index("#")]
    if reader.NUM.fullmatch(w):
        return ["n" + repr(float(w)), "s" + w.lower()]
    return ["s" + w.lower()]


def dict_keys(d):
    """what the dictionary holds, expressions aside"""
    if isinstance(d, dict):
        t = d.get("__type__")
        if t is not None:
            yield "s" + t
        for k, v in d.items():
            if doc.is_hidden(k):
                continue
            child = isinstance(v, dict) and "__type__" in v or (k in vocab.OBJECT_LISTS and isinstance(v, list)
                                                                 and all(isinstance(x, dict) for x in v))
            if not child:
                n = 1
                if k in vocab.REPEATED and isinstance(v, list):
                    n = len(v)
                if k == "points" and v and isinstance(v[0], list) and v[0] and isinstance(v[0][0], (tuple, list)):
                    n = len(v)
                if k == "config" and isinstance(v, dict):
                    n = len(v)
                for _ in range(n):
                    yield "s" + k
            yield from dict_keys(v)
    elif isinstance(d, (list, tuple)):
        for v in d:
            yield from dict_keys(v)
    elif isinstance(d, bool):
        yield "s" + str(d).lower()
    elif isinstance(d, (int, float)):
        yield "n" + repr(float(str(d)))
    elif isinstance(d, str):
        if not d.startswith("(") and not d.startswith("{") and not d.lower().startswith("not"):
            yield "s" + d.lower()


def unit(job, i, rng, mon):
    if job == "matrix":
        for label, items, slot, it in DOCS[i * 10:i * 10 + 10]:
            b = items[0]
            its = [x for x in b.items if x is not it]
            fill = [f for f in FILL if f.kw != getattr(it, "kw", None) and b.type == "layer"]
            for new in ([it], [it] + its + fill, its + [it] + fill, fill + its + [it]):
                doc_items = [Block(b.type, new)]
                compare(mon, doc.render(doc_items, doc.Style(rng)).text, doc_items, label)
    elif job == "shapes":
        for label, items, slot, it in SHAPES[i * 40:i * 40 + 40]:
            text = doc.render(items, doc.Style(rng)).text
            d, e = common.try_loads(text)
            if e is not None:
                mon.count("shapes_rejected")
                continue
            compare(mon, text, items, label)
    elif job == "nest":
        nest(mon, rng, i)
    elif job == "strings":
        strings(mon, rng, i)
    elif job == "kv":
        kv(mon, rng, i)
    elif job == "numbers":
        numbers(mon, rng, i)
    elif job in ("random", "twice"):
        for k in range(6):
            if job == "twice":
                items = twice(mon, rng)
            else:
                g = gen.Gen(rng, rng.choice(["valid", "loose"]), multiline=rng.random() < 0.3, escapes=rng.random() < 0.2,
                            exprlike=False, includes=rng.random() < 0.2, big=rng.random() < 0.05)
                items = g.document()
                mon.count("random_docs")
            text = doc.render(items, doc.Style(rng, comments=rng.random() < 0.4, word_case=False)).text
            compare(mon, text, items, job)
            if k == 0:
                mon.sample(text)
    elif job == "census":
        fn, text = common.corpus()[i]
        d, e = common.try_loads(text)
        if e is None and d:
            census(mon, text, d, fn)
    elif job == "mutant":
        for k in range(12):
            text = mutate.mutant(rng, mutate.source(rng))
            d, e = common.try_loads(text)
            if e is None and d:
                mon.count("mutants")
                census(mon, text, d, "mutant")
