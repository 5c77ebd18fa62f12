"""C09: version-aware validation follows minVersion and maxVersion"""

from __future__ import annotations

import copy
import json

from mfv import common, doc, gen, matrix, schemaeval, vocab
from mfv.common import mappyfile
from mfv.doc import Attr, Block

PROPERTY = "C09"
LEVEL = "exploration"
RULE = (
    "cases are (dictionary, version). Every keyword, block and value alternative annotated in the schemas x versions at, just "
    "inside, just outside and far from both ends of its range x every chain of blocks it can stand in (nested to the root): "
    "accepted exactly inside the range, the right name blamed outside. Random valid and loose documents x versions against an "
    "evaluator of the schemas with versions written for this check. Histories of queries on one Validator (several versions, "
    "root types, exports, no version) where every answer must equal that of a fresh Validator, and the exported schema, judged "
    "by the evaluator, must give the same verdict. Non-trivial: counted by (content, version)."
)
ASSUMPTIONS = ["versions are positive numbers (0 and None mean no version)"]


def chains():
    """paths of block types from a root to each type: all of them (no type twice in a path)"""
    out = {t: [] for t in vocab.ROOT_TYPES}

    def go(t, below):
        path = [t] + below
        out[path[-1]].append(path)
        for p, key, many in vocab.PARENTS[t]:
            if p not in path and len(path) < 7:
                go(p, path)

    for t in vocab.TYPES:
        go(t, [])
    return out


CHAINS = chains()
ENTRIES = []
for _t in vocab.TYPES:
    for _k, _s in vocab.SLOTS[_t].items():
        if (_s.minv, _s.maxv) != (0.0, vocab.INF):
            ENTRIES.append((_t, _k, None, _s.minv, _s.maxv))
        for _n, _a in enumerate(_s.alts):
            if (_a.minv, _a.maxv) != (_s.minv, _s.maxv):
                ENTRIES.append((_t, _k, _n, _a.minv, _a.maxv))
PAIRS = [(e, c) for e in ENTRIES for c in CHAINS[e[0]]]
ALLV = sorted({x for e in ENTRIES for x in e[3:] if 0 < x < 100})


def start(tier):
    global LIVE
    common.corpus()
    LIVE = schemaeval.Schemas()


def setup(tier):
    common.fast_lark()
    start(tier)


def plan(tier):
    big = tier == "thorough"
    return [
        ("entries", (len(PAIRS) + 3) // 4, 6),
        ("random", 6000 if big else 800, 4),
        ("history", 800 if big else 160, 2),
        ("corpus", len(common.corpus()) if big else 40, 4),
        ("roots", 4 if big else 1, 1),
    ]


def REQUIRED(tier):
    return {"evaluations": 8000, "accepted": 2500, "refused": 1500, "entries": 100, "chains": 300, "history_steps": 400,
            "exports": 80, "unannotated_equal": 500}


_val = {}


def validator():
    """one Validator for a worker, so that schemas are expanded once (histories use their own)"""
    if "v" not in _val:
        _val["v"] = mappyfile.validator.Validator()
    return _val["v"]


def names(msgs):
    return sorted({m["message"].removeprefix("ERROR: Invalid value in ") for m in msgs})


def observe(mon, d, version, label, validate=None):
    msgs = (validate or validator().validate)(d, version=version)
    exp = schemaeval.expected(d, LIVE, version)
    en = sorted({e[1] for e in exp})
    mon.case(repr(schemaeval.lower(d)) + str(version))
    mon.count("refused" if exp else "accepted")
    if names(msgs) != en or bool(msgs) != bool(exp):
        mon.violation("verdict" if bool(msgs) != bool(exp) else "names",
                      f"{label} version {version}: messages {[(m['message'], common.short(m['error'], 120)) for m in msgs[:5]]}, "
                      f"expected {exp[:5]}\n{common.short(repr(doc.plain(d)), 2500)}")
    return msgs


def steps(lo, hi):
    vs = set()
    for x in (lo, hi):
        if 0 < x < 100:
            vs |= {x, round(x - 0.1, 3), round(x + 0.1, 3), round(x - 0.001, 4), round(x + 0.001, 4), x - 1, x + 1}
    return sorted(v for v in vs if v > 0) + [4.0, 10.0, 10.4, 25.0, 99.0]


def entry_items(rng, t, kw, alt):
    """blocks of the type that use the entry, valid without a version"""
    s = vocab.slot(t, kw)
    g = gen.Gen(rng, "valid", avoid_quote="\"'", dq=False)
    out = []
    if alt is None:
        out = matrix.alternatives(s)
        rng.shuffle(out)
        out = out[:3]
    else:
        for _ in range(3):
            v = g.alt_value(s, s.alts[alt])
            if v is not None:
                out.append(Attr(kw, v))
    return out


def entry(mon, rng, i):
    for (t, kw, alt, lo, hi), chain in PAIRS[i * 4:i * 4 + 4]:
        mon.count("chains")
        mon.count("entries", 1 if len(chain) == 1 else 0)
        for it in entry_items(rng, t, kw, alt):
            base = matrix.minimal(t)
            b = Block(t, [x for x in base.items if getattr(x, "kw", None) != kw] + [it])
            for p in reversed(chain[:-1]):
                base = matrix.minimal(p)
                b = Block(p, base.items + [b])
            d = common.loads(doc.render([b], doc.Style(rng)).text)
            if schemaeval.expected(d, LIVE):
                mon.count("entry_invalid_anyway")
                continue
            vs = steps(lo, hi)
            if len(chain) > 2:
                vs = rng.sample(vs, min(len(vs), 5))
            for v in vs:
                msgs = observe(mon, d, v, f"{'/'.join(chain)}.{kw} alternative {alt}")
                # the other entries of the chain allow the version: the answer is the entry's own range
                if alt is None and not any(bounds(x, y, v) for x, y in zip(chain, chain[1:])) and usable(it, v) and plain_slot(t, kw):
                    inside = lo <= v <= hi
                    mon.count("direct")
                    mon.check(bool(msgs) != inside, "range", lambda: f"{'/'.join(chain)}.{kw} ({lo} to {hi}) at version {v}: "
                              f"{[m['message'] + m['error'][:80] for m in msgs]}")


def plain_slot(t, kw):
    return not any(e[0] == t and e[1] == kw and e[2] is not None for e in ENTRIES)


def usable(it, v):
    """no annotated alternative or keyword inside of the item itself"""
    if isinstance(it, Block):
        return not it.items and all(a <= v <= b for a, b in [vocab.version_range(vocab.raw_schema(it.type))])
    return True


def bounds(p, c, v):
    """is the block c in p unavailable at the version"""
    s = vocab.slot(p, c if c in vocab.SINGLETONS else vocab.PLURALS[c])
    return not s.minv <= v <= s.maxv or not (lambda r: r[0] <= v <= r[1])(vocab.version_range(vocab.raw_schema(c)))


def export(v, version, name):
    # as the command line writes it (without an indent json does not write references)
    return json.loads(json.dumps(v.get_versioned_schema(version, name), sort_keys=True, indent=4))


class Plain(schemaeval.Schemas):
    """an exported schema has no references"""

    def __init__(self, doc_):
        super().__init__()
        self.d = doc_

    def doc(self, name):
        return self.d


def history(mon, rng):
    one = mappyfile.validator.Validator()
    docs = []
    for _ in range(4):
        g = gen.Gen(rng, rng.choice(["valid", "valid", "loose"]), maxdepth=3, kw_p=0.3)
        t = rng.choice(["map", "layer", "class", "label", "style", "web", "legend", "outputformat", "symbol", "scalebar"])
        docs.append(common.loads(doc.render([g.block(t)], doc.Style(rng)).text))
    vs = [None] + rng.sample(ALLV + [4.5, 9.0, 7, 8], 3)
    answers = {}
    trace = []
    for _ in range(14):
        x = rng.random()
        v = rng.choice(vs)
        n = rng.randrange(len(docs))
        mon.count("history_steps")
        if x < 0.6:
            key = ("validate", n, v)
            got = [(m["message"], m["error"]) for m in one.validate(docs[n], version=v)]
        elif x < 0.8:
            name = docs[n]["__type__"]
            key = ("export", name, v)
            got = json.dumps(export(one, v, name), sort_keys=True)
            mon.count("exports")
        else:
            name = docs[n]["__type__"]
            key = ("explicit", n, v)
            got = [(m["message"], m["error"]) for m in one.validate(docs[n], schema_name=name, version=v)]
        trace.append(key)
        mon.case(repr(schemaeval.lower(docs[n])) + repr(trace))
        if key not in answers:
            fresh = mappyfile.validator.Validator()
            if key[0] == "validate":
                want = [(m["message"], m["error"]) for m in fresh.validate(docs[n], version=v)]
                exp = schemaeval.expected(docs[n], LIVE, v)
                mon.check(bool(want) == bool(exp), "verdict", lambda: f"version {v}: {want[:4]} expected {exp[:4]}")
            elif key[0] == "export":
                s = export(fresh, v, key[1])
                want = json.dumps(s, sort_keys=True)
                for d in docs:
                    if d["__type__"] == key[1]:
                        low = schemaeval.lower(d)
                        a = sorted({p for p, k in schemaeval.Eval(Plain(s)).errors(low, s, ())})
                        b = sorted({p for p, k in schemaeval.Eval(LIVE, v).root(low, key[1])})
                        mon.check(bool(a) == bool(b), "export", lambda: f"the exported schema of {key[1]} for version {v} "
                                  f"finds {a[:4]}, expected {b[:4]} in {common.short(repr(doc.plain(d)), 1500)}")
            else:
                want = [(m["message"], m["error"]) for m in fresh.validate(docs[n], schema_name=name, version=v)]
            answers[key] = want
        mon.check(sorted(answers[key]) == sorted(got) if isinstance(got, list) else answers[key] == got, "history",
                  lambda: f"after {trace}: {common.short(repr(got), 800)}, a fresh Validator answers "
                  f"{common.short(repr(answers[key]), 800)}\n{common.short(repr(doc.plain(docs[n])), 1500)}")


def unit(job, i, rng, mon):
    if job == "entries":
        entry(mon, rng, i)
    elif job == "random":
        for k in range(4):
            v = rng.choice(ALLV + [4.0, 5.1, 6.1, 7.3, 9.0, 7, 8, 6])
            g = gen.Gen(rng, rng.choice(["valid", "valid", "loose"]), maxdepth=5, includes=rng.random() < 0.1)
            targeted = rng.random() < 0.5
            if targeted:
                g.mode, g.version = "valid", v
            d = common.loads(doc.render([g.block(rng.choice(["map", "layer", "class", "label", "style", "web"]))],
                                        doc.Style(rng)).text)
            msgs = observe(mon, d, v, job)
            # no annotation involved: as without a version
            if not schemaeval.expected(d, LIVE) and not msgs:
                mon.count("unannotated_equal")
                mon.check(not validator().validate(d), "unversioned", lambda: repr(doc.plain(d)))
            if targeted and k == 0:
                mon.sample(f"version {v}: " + repr(doc.plain(d)))
            for w in rng.sample(ALLV, 3):
                observe(mon, d, w, job)
            observe(mon, d, None, job)
    elif job == "history":
        history(mon, rng)
    elif job == "corpus":
        fn, text = common.corpus()[i * 9 % len(common.corpus())]
        d, e = common.try_loads(text)
        if e is None and isinstance(d, dict):
            for v in rng.sample(ALLV, 2) + [None]:
                observe(mon, d, v, fn)
    elif job == "roots":
        # the public function, every root type and block, nothing but the block
        for t in vocab.ROOT_TYPES:
            if t == "symbolset":
                d = common.loads("SYMBOLSET SYMBOL NAME 'a' TYPE ELLIPSE POINTS 1 1 END END END")
            else:
                d = common.loads(doc.render([matrix.minimal(t)], doc.Style(rng)).text)
            for v in (4.0, 5.0, 6.0, 7.0, 7.6, 8.0, 8.4):
                observe(mon, d, v, t, lambda d, version: mappyfile.validate(d, version=version))
        d = mappyfile.loads("CONNECTIONOPTIONS\n'a' 'b'\nEND")
        for v in (5.0, 7.4, 7.6, 7.7, 8.0):
            observe(mon, d, v, "connectionoptions", lambda d, version: mappyfile.validate(d, version=version))
