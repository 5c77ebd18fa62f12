"""C07: the verdict of validate is the schema's verdict, and its messages name what is wrong"""

from __future__ import annotations

import copy
import random

from mfv import common, doc, gen, matrix, mutate, schemaeval, vocab
from mfv.common import mappyfile
from mfv.doc import Attr, Block, Val

PROPERTY = "C07"
LEVEL = "exploration"
RULE = (
    "cases are dictionaries (loaded from valid and loose random documents, the matrix, every keyword x value shape, the "
    "corpus, mutants; created; key-value blocks; with one to four injected faults). validate is compared with an evaluator of "
    "the published schemas written for this check (live schema files): messages exactly when it finds errors, and the names "
    "in the messages are exactly the keywords and objects it blames. Documents generated from the frozen schema copy must "
    "be silent, and a fault injected into one must be reported under its keyword (or its object). Metamorphic: letter case "
    "of keys and values, hidden keys, list against one by one, reused Validator. Non-trivial: at least one keyword; counted "
    "by content."
)
ASSUMPTIONS = ["hidden keys are spelled __letters__, as the schemas have them"]


def start(tier):
    global DOCS, SHAPES, LIVE, FROZEN
    common.corpus()
    DOCS = list(matrix.documents())
    SHAPES = list(matrix.shape_documents())
    LIVE = schemaeval.Schemas()
    FROZEN = schemaeval.Schemas(vocab.SCHEMA_DIR)


def setup(tier):
    common.fast_lark()
    start(tier)


TARGETS = [(t, kw) for t in vocab.TYPES for kw, s in vocab.SLOTS[t].items() if s.cat in ("simple", "points", "pattern",
                                                                                         "projection", "repeated")]


def plan(tier):
    big = tier == "thorough"
    return [
        ("valid", 10000 if big else 1250, 10),
        ("loose", 10000 if big else 1250, 10),
        ("matrix", 145, 5),
        ("shapes", 261, 5),
        ("corpus", len(common.corpus()), 8),
        ("faults", len(TARGETS) * (8 if big else 1), 10),
        ("multi", 8000 if big else 1000, 10),
        ("objects", 4000 if big else 500, 10),
        ("mutant", 8000 if big else 750, 10),
        ("lists", 3000 if big else 375, 5),
        ("created", 40 if big else 10, 1),
        ("many", 60 if big else 12, 1),
    ]


def REQUIRED(tier):
    return {"evaluations": 20000, "valid_docs": 2000, "invalid_seen": 4000, "faults": 5000, "fault_keywords": 280,
            "object_faults": 500, "case_variants": 3000, "hidden_variants": 3000, "lists": 120, "nested_faults": 2000}


def names(msgs):
    return sorted({m["message"].removeprefix("ERROR: Invalid value in ") for m in msgs})


def describe(msgs):
    return [(m["message"], common.short(m["error"], 120)) for m in msgs[:8]]


def validate(d):
    return mappyfile.validate(d)


def observe(mon, d, label, want_names=None, variants=None, text=None):
    """the verdict and the names, against the evaluator on the live schemas (and the promised names)"""
    msgs = validate(d)
    low = schemaeval.lower(d)
    key = repr(low)
    mon.case(key, len(key) > 30)
    exp = schemaeval.expected(d, LIVE)
    en = sorted({e[1] for e in exp})
    got = names(msgs)
    mon.count("valid_seen" if not exp else "invalid_seen")
    if bool(msgs) != bool(exp):
        mon.violation("verdict", f"{label}: {len(msgs)} messages {describe(msgs)}, the schema finds {exp[:6]}\n"
                      f"{common.short(text or repr(doc.plain(d)), 3000)}")
    elif got != en:
        mon.violation("names", f"{label}: messages {describe(msgs)} name {got}, the schema blames {en}: {exp[:6]}\n"
                      f"{common.short(text or repr(doc.plain(d)), 3000)}")
    else:
        for n in en:
            need = len({e[:2] for e in exp if e[1] == n})
            have = sum(1 for m in msgs if m["message"] == f"ERROR: Invalid value in {n}")
            if have < need:
                mon.violation("too-few", f"{label}: {have} messages name {n}, the schema blames {need}: {exp[:8]}\n"
                              f"{common.short(text or repr(doc.plain(d)), 3000)}")
        for m in msgs:
            if not isinstance(m.get("error"), str) or not isinstance(m.get("message"), str):
                mon.violation("shape", f"{label}: {m}")
    if want_names is not None and got != sorted(want_names):
        mon.violation("missed" if set(want_names) - set(got) else "spurious",
                      f"{label}: expected messages for {sorted(want_names)}, got {describe(msgs)}\n"
                      f"{common.short(text or repr(doc.plain(d)), 3000)}")
    if variants is not None:
        other_forms(mon, d, msgs, label, variants)
    return msgs


def recase(s, rng):
    return "".join(rng.choice([c.upper(), c.lower()]) if (c.upper().lower() == c.lower() and len(c.upper()) == 1) else c
                   for c in s)


def cased(d, rng):
    if isinstance(d, dict):
        return {(k if doc.is_hidden(k) else recase(k, rng)): (v if doc.is_hidden(k) and k != "__type__" else cased(v, rng))
                for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return type(d)(cased(v, rng) for v in d)
    if isinstance(d, str):
        return recase(d, rng)
    return d


HIDDEN = ["__position__", "__comments__", "__foo__", "__tokens__", "__z__", "__include__", "__abc__"]


def hide(d, rng):
    if isinstance(d, dict):
        items = [(k, hide(v, rng)) for k, v in d.items()]
        if "__type__" in d:
            for h in rng.sample(HIDDEN, rng.randint(0, 2)):
                v = rng.choice([1, "x", {}, [], None, {"line": 3, "column": 4}, [{"a": 1}], {"name": {"line": 1, "column": 2}},
                                True, {"__comments__": ["# c"]}])
                if h == "__position__":
                    v = {"line": 3, "column": 4}
                if h == "__comments__":
                    v = {"name": "# c"}
                items.insert(rng.randint(0, len(items)), (h, v))
        return dict(items)
    if isinstance(d, (list, tuple)):
        return type(d)(hide(v, rng) for v in d)
    return d


def tuples(d, rng):
    """some of the lists as tuples, which have the same JSON form, and the letter case changed"""
    if isinstance(d, dict):
        return {k: v if doc.is_hidden(k) else tuples(v, rng) for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return rng.choice([list, tuple, tuple])(tuples(v, rng) for v in d)
    return d


def other_forms(mon, d, msgs, label, rng):
    got = sorted((m["message"]) for m in msgs)
    for what, f in (("case_variants", cased), ("hidden_variants", hide),
                    ("tuple_variants", lambda x, r: cased(tuples(x, r), r))):
        other = f(d, rng)
        if type(other) is not type(d) and isinstance(other, tuple):
            other = list(other)
        m2 = validate(other)
        mon.count(what)
        mon.count("evaluations")
        if sorted(m["message"] for m in m2) != got:
            mon.violation(what.split("_")[0], f"{label}: {got} became {describe(m2)}\n{common.short(repr(other), 3000)}")


# -------------------------------------------------------------------------------------------------- faults
BAD = ["zz_bad", 5, -5, 0, 1.5, 300, -300, 99999, True, False, "[x]", "(x)", "[b", "", "/r/", "#zzzzzz", "#ff0000", [1], [1, 2],
       [1, 2, 3], [1, 2, 3, 4], [300, 0, 0], [-5, 0, 0], ["a", "b"], ["[a]", "[b]"], [1, "[b]"], [0, 0, 0, 255, 255, 255], [],
       {"a": 1}, "on", "point", "&#1;", [[1, 2]], [[1, 2], [3]], [["a", "b"]], [[1, 2], [3, 4]], ["x"], [True], "true", "auto",
       1e9, -1, 360, -361, 101, [0.5, 0.5], ["#ff0000", "#00ff00"], [1, 2, 3, 4, 5], "ul", 2.0, None, [None], [1, None]]
SLOT_BAD = {}


def bad_values(t, kw):
    """values of BAD that the frozen schema of the keyword refuses"""
    k = (t, kw)
    if k not in SLOT_BAD:
        ev = schemaeval.Eval(FROZEN)
        ps = FROZEN.doc(t)["properties"][kw]
        SLOT_BAD[k] = [v for v in BAD if not ev.valid(schemaeval.lower(v), ps)]
    return SLOT_BAD[k]


def valid_text(rng, type_=None, maxdepth=5, kw_p=0.2):
    g = gen.Gen(rng, "valid", includes=rng.random() < 0.2, maxdepth=maxdepth, kw_p=kw_p, multiline=rng.random() < 0.2)
    items = g.document(type_)
    return items


def chain(b, rng, n):
    """put a block inside of valid parents"""
    for _ in range(n):
        ps = [p for p in vocab.PARENTS[b.type] if p[0] != "symbolset"]
        if not ps:
            break
        p, key, many = rng.choice(ps)
        base = matrix.minimal(p)
        items = base.items + [b]
        rng.shuffle(items)
        b = Block(p, items)
    return b


def find_objects(d, t):
    return [o for p, o in common.objects_of(d) if o.get("__type__") == t]


def unknown_name(rng):
    return rng.choice(["zzunknown", "colour", "naam", "x", "layer", "styl", "lables", "__", "type2", "_", "a b", "é",
                       "__a b__", "class", "labels2"])


def inject(o, rng, mon, kw=None, v=None):
    """one fault in an object: the name that has to be reported, or None"""
    t = o["__type__"]
    if t in vocab.KV_BLOCKS:
        return None
    x = rng.random()
    if kw is None and x < 0.25:
        k = unknown_name(rng)
        if k in vocab.SLOTS[t]:
            return None
        o[k] = rng.choice(["x", 1, True])
        mon.count("object_faults")
        return t.upper()
    req = [k for k in vocab.REQUIRED[t] if k in o and k != "__type__"]
    if kw is None and x < 0.4 and req:
        del o[rng.choice(req)]
        mon.count("object_faults")
        return t.upper()
    slots = [s for s in vocab.SLOTS[t].values() if s.cat in ("simple", "points", "pattern", "projection", "repeated")]
    if kw is None:
        if not slots:
            return None
        present = [s for s in slots if s.kw in o]
        kw = rng.choice(present or slots).kw if rng.random() < 0.5 else rng.choice(slots).kw
    if v is None:
        vals = bad_values(t, kw)
        if not vals:
            return None
        v = rng.choice(vals)
    o[kw] = copy.deepcopy(v)
    mon.count("faults")
    return kw.upper()


def unit(job, i, rng, mon):
    if job == "valid":
        for k in range(5):
            items = valid_text(rng)
            text = doc.render(items, doc.Style(rng, comments=rng.random() < 0.2)).text
            mon.count("valid_docs")
            kw = rng.choice([{}, {"include_position": True}, {"include_comments": True}])
            observe(mon, common.loads(text, **kw) if len(items) == 1 else common.loads(text, **kw)[0], job, [],
                    rng if k == 0 else None, text)
            if k == 0:
                mon.sample(text)
    elif job == "loose":
        for k in range(5):
            g = gen.Gen(rng, "loose", includes=rng.random() < 0.2, maxdepth=4)
            text = doc.render([g.block(rng.choice(vocab.ROOT_TYPES))], doc.Style(rng)).text
            observe(mon, common.loads(text), job, None, rng if k < 2 else None, text)
    elif job == "matrix":
        for label, items, slot, it in DOCS[i * 10:i * 10 + 10]:
            text = doc.render(items, doc.Style(rng)).text
            observe(mon, common.loads(text), label, [], rng, text)
    elif job == "shapes":
        for label, items, slot, it in SHAPES[i * 40:i * 40 + 40]:
            base = matrix.minimal(slot.type)
            b = Block(slot.type, [x for x in base.items if getattr(x, "kw", None) != slot.kw] + [it])
            text = doc.render([chain(b, rng, rng.choice([0, 0, 1, 2]))], doc.Style(rng)).text
            d, e = common.try_loads(text)
            if e is not None:
                mon.count("shapes_rejected")
                continue
            observe(mon, d, label, None, None, text)
    elif job == "corpus":
        fn, text = common.corpus()[i]
        d, e = common.try_loads(text)
        if e is None and isinstance(d, dict):
            observe(mon, d, fn, None, rng, text)
    elif job == "faults":
        t, kw = TARGETS[i % len(TARGETS)]
        vals = bad_values(t, kw)
        mon.count("fault_keywords", 1 if vals else 0)
        for v in vals:
            n = rng.choice([0, 0, 1, 2, 3])
            b = chain(matrix.minimal(t), rng, n)
            text = doc.render([b], doc.Style(rng)).text
            d = common.loads(text)
            o = rng.choice(find_objects(d, t))
            if o is not d:
                mon.count("nested_faults")
            nm = inject(o, rng, mon, kw, v)
            observe(mon, d, f"{t}.{kw} = {v!r}", [nm], rng if rng.random() < 0.2 else None)
    elif job in ("multi", "objects"):
        for k in range(4):
            items = valid_text(rng, rng.choice(["map", "layer", "class", "web", "legend"]) if job == "multi" else None)
            d = common.loads(doc.render(items[:1], doc.Style(rng)).text)
            objs = [o for p, o in common.objects_of(d) if o.get("__type__") in vocab.SLOTS]
            if not objs:
                continue
            want = set()
            for o in rng.sample(objs, min(len(objs), rng.choice([1, 1, 2, 3, 4]) if job == "multi" else 1)):
                if o is not d:
                    mon.count("nested_faults")
                nm = inject(o, rng, mon)
                if nm:
                    want.add(nm)
            observe(mon, d, job, sorted(want), rng if k == 0 else None)
    elif job == "mutant":
        for k in range(10):
            text = mutate.mutant(rng, mutate.source(rng))
            d, e = common.try_loads(text)
            if e is None and isinstance(d, dict) and d:
                mon.count("mutants")
                observe(mon, d, job, None, rng if k == 0 else None, text)
            elif e is None:
                mon.check(isinstance(validate(d), list), "verdict", "no list")
    elif job == "lists":
        lists(mon, rng)
    elif job == "many":
        many(mon, rng, i)
    elif job == "created":
        for t in vocab.ROOT_TYPES + ["metadata", "validation", "connectionoptions"]:
            if t in ("metadata", "validation", "connectionoptions"):
                d = mappyfile.loads(f"{t.upper()}\n'a' 'b'\nEND")
                observe(mon, d, t, [], rng)
                continue
            for v in (None, 4.8, 5.0, 6.0, 7.0, 7.4, 7.6, 8.0):
                d = mappyfile.create(t, version=v)
                observe(mon, d, f"create({t}, {v})", None, rng)


def many(mon, rng, i):
    """tens to a thousand faults in one document, and as many documents in one list"""
    n = [11, 21, 33, 52, 65, 101, 130, 201, 257, 400, 513, 1025][i % 12]
    layers = []
    for k in range(n):
        l = matrix.minimal("layer")
        if rng.random() < 0.5:
            c = matrix.minimal("class")
            l.items = l.items + [c]
        layers.append(l)
    d = common.loads(doc.render([Block("map", layers)], doc.Style(rng)).text)
    want = set()
    for l in d["layers"]:
        nm = inject(l if rng.random() < 0.7 or "classes" not in l else l["classes"][0], rng, mon,
                    *rng.choice([(), ("status", "zz"), ("type", "zz"), ("name", 5.5)]))
        if nm:
            want.add(nm)
    mon.count("many_faults", n)
    observe(mon, d, f"{n} faults", None)
    ds = [{"__type__": "layer", "name": f"l{k}", "type": "point", "status": rng.choice(["x", "y", "z"])} for k in range(n)]
    got = validate(ds)
    mon.check([m["message"] for m in got] == ["ERROR: Invalid value in STATUS"] * n, "list", lambda: f"{n} faulty dictionaries have {len(got)} messages")


def order(msgs):
    return sorted((m["message"], m["error"], m.get("line"), m.get("column")) for m in msgs)


def lists(mon, rng):
    ds = []
    for _ in range(rng.randint(1, 5)):
        g = gen.Gen(rng, rng.choice(["valid", "loose"]), maxdepth=2)
        d = common.loads(doc.render([g.block(rng.choice(vocab.ROOT_TYPES))], doc.Style(rng)).text)
        if rng.random() < 0.5:
            inject(rng.choice([o for p, o in common.objects_of(d) if o.get("__type__") in vocab.SLOTS]), rng, mon)
        ds.append(d)
    mon.count("lists")
    v = mappyfile.validator.Validator()
    one = [m for d in ds for m in validate(d)]
    mon.case(repr(schemaeval.lower(ds)))
    for how, got in (("list", validate(ds)), ("reused", v.validate(ds)), ("reused again", v.validate(ds))):
        mon.check(order(got) == order(one), "list", lambda: f"{how}: {describe(got)} is not {describe(one)}\n{common.short(repr(doc.plain(ds)), 2000)}")
    # several roots in one text
    types = [rng.choice(vocab.TYPES) for _ in range(rng.randint(2, 4))]
    items = [gen.Gen(rng, rng.choice(["valid", "loose"]), maxdepth=2).block(t) for t in types]
    d = common.loads(doc.render(items, doc.Style(rng)).text)
    one = [m for x in d for m in validate(x)]
    exp = [e for x in d for e in schemaeval.expected(x, LIVE)]
    mon.check(order(validate(d)) == order(one), "list", lambda: f"roots: {describe(validate(d))} is not {describe(one)}")
    mon.check(bool(one) == bool(exp), "verdict", lambda: f"roots: {describe(one)}, the schema finds {exp[:5]}")
