"""C19: grammar, keyword tables and schemas describe one vocabulary"""

from __future__ import annotations

import copy
import json
import logging
import os
import re

from mfv import common, doc, gen, matrix, schemaeval, vocab
from mfv.common import mappyfile
from mfv.doc import Attr, Block, KV, Val
from mfv.runner import REPO

PROPERTY = "C19"
LEVEL = "exploration"
RULE = (
    "an enumeration of the finite vocabulary. Every word of the grammar, tables and schemas is tried as a block at the root; every block type "
    "found, every parent x child pair, every (type, keyword, alternative of the schema) on its own, first, middle and last (all ordered pairs "
    "of keywords of a type), and in every parent context; every default a schema file declares; every create(type, version) at and around all "
    "version boundaries. The monitor checks per document: it parses to the dictionary our model predicts, printing logs nothing, the printed "
    "text re-loads the same, and validation is silent without a version and for the versions the alternative is declared for. Non-trivial: "
    "every document; counted by text, created objects by type and version, defaults by place."
)
ASSUMPTIONS = [
    "left out: a block as the first thing in a SYMBOL (no schema allows it: SYMBOL CLASS reads as a keyword and its value), and unquoted free "
    "words where they would open a block (STYLE word, SYMBOL name, reserved words)",
    "the vocabulary is the schema copy frozen in data/schemas together with the schemas of the tree (keywords that differ are added)",
]

NU = 48  # units of the enumerations
LIVE = schemaeval.LIVE


# --------------------------------------------------------------------------------------------------------- setup
def start(tier):
    global SLOTS, VERSIONS, SCHEMAS, LOG
    common.corpus()
    SCHEMAS = schemaeval.Schemas(LIVE)
    SLOTS = []  # every (type, slot) once; both when frozen and live differ
    for t in vocab.TYPES + ["symbolset"]:
        SLOTS += vocab.SLOTS[t].values()
    try:
        live = vocab.slots_from(LIVE, vocab.ROOT_TYPES)
    except (ValueError, KeyError, TypeError):
        live = {}  # schemas written in a way the frozen vocabulary does not use
    for t, ks in live.items():
        for k, s in ks.items():
            f = vocab.slot(t, k)
            if f is None or json.dumps(values_only(f.schema), sort_keys=True) != json.dumps(values_only(s.schema), sort_keys=True):
                SLOTS.append(s)
    VERSIONS = sorted(boundaries())
    LOG = Log()
    logging.getLogger("mappyfile").addHandler(LOG)


def values_only(s):
    """the schema without what does not affect values"""
    if isinstance(s, dict):
        return {k: values_only(v) for k, v in s.items() if k not in ("example", "examples", "title", "$schema", "id", "default")}
    return [values_only(v) for v in s] if isinstance(s, list) else s


def boundaries():
    out = {4.0, 5.0, 6.0, 6.5, 7.0, 7.2, 7.4, 7.6, 8.0, 8.2, 8.4, 8.6, 9.0}
    for fn in sorted(os.listdir(LIVE)):
        if fn.endswith(".json"):
            with open(os.path.join(LIVE, fn), encoding="utf-8") as f:
                for v in re.findall(r'"m(?:in|ax)Version"\s*:\s*([0-9.]+)', f.read()):
                    v = float(v)
                    out |= {v, round(v - 0.1, 2), round(v + 0.1, 2)}
    return out


class Log(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.records = []

    def emit(self, record):
        self.records.append(record.getMessage())


def setup(tier):
    common.fast_lark()
    start(tier)


PAIRS = [(t, a) for t in vocab.TYPES for a in vocab.SLOTS[t]]


def plan(tier):
    return [
        ("words", NU, 2),
        ("types", len(vocab.ROOT_TYPES), 1),
        ("pairs", len(vocab.TYPES), 1),
        ("alone", NU * 2, 2),
        ("neighbours", len(PAIRS), 4),
        ("middle", NU * 2, 2),
        ("contexts", NU, 1),
        ("defaults", 1, 1),
        ("create", len(vocab.ROOT_TYPES) + len(vocab.KV_BLOCKS), 1),
    ]


def REQUIRED(tier):
    return {"evaluations": 18000, "words": 200, "block_words": 20, "pairs": 300, "alone": 1100, "first": 4000, "last": 4000, "middle": 1000,
            "contexts": 1100, "versions": 2000, "defaults": 30, "created": 200, "created_keys": 400, "auto_lists": 50}


# -------------------------------------------------------------------------------------------------------- monitor
STYLES = None


def style(rng, plain=False):
    if plain:
        return doc.Style(rng, "upper", "space", '"')
    return doc.Style(rng, rng.choice(["upper", "lower", "random"]), rng.choice(["line", "space", "line", "random"]), rng.choice(['"', "'"]))


def try_doc(mon, items, label, rng, versions=(), plain=False, valid=True):
    """one document: parse, model, validate, print, re-load. False after a violation"""
    text = doc.render(items, style(rng, plain)).text
    mon.case(text)
    del LOG.records[:]
    try:
        d = common.loads(text)
    except common.LARK_ERRORS as e:
        mon.violation("not-parsed", f"{label}: {common.where(e)}\n{text}")
        return False
    r = doc.same(doc.model(items), d)
    if r:
        mon.violation("model", f"{label}: {r}\n{text}")
        return False
    if valid:
        for v in (None,) + tuple(versions):
            m = mappyfile.validate(copy.deepcopy(d), version=v) if v is not None else mappyfile.validate(copy.deepcopy(d))
            if v is not None:
                mon.count("versions")
            if m:
                mon.violation("not-valid", f"{label} version {v}: {m[0].get('message')} - {m[0].get('error')}\n{text}")
                return False
    del LOG.records[:]
    out = mappyfile.dumps(d)
    if LOG.records:
        mon.violation("lookup", f"{label}: printing logged {LOG.records[0]}\n{text}")
        return False
    d2, e = common.try_loads(out)
    if e is not None:
        mon.violation("not-reloaded", f"{label}: {common.where(e)}\n{text}\nprinted as\n{out}")
        return False
    r = common.rt_same(d, d2)
    if r:
        mon.violation("reloaded", f"{label}: {r[1]}\n{text}\nprinted as\n{out}")
        return False
    if valid:
        m = mappyfile.validate(d2)
        if m:
            mon.violation("reloaded-not-valid", f"{label}: {m[0].get('message')} - {m[0].get('error')}\n{text}\nprinted as\n{out}")
            return False
    return True


# --------------------------------------------------------------------------------------------------- alternatives
_alts = {}


def alts(slot):
    """[(item, (min version, max version))] with a representative of every alternative"""
    k = id(slot)
    if k not in _alts:
        out = []
        rng = __import__("random").Random(f"{slot.type}.{slot.kw}")
        g = gen.Gen(rng, "valid", avoid_quote='"\'', dq=False)
        lo, hi = slot.minv, slot.maxv
        if slot.cat == "simple":
            for a in slot.alts:
                vals = []
                if a.kind == "enum":
                    for v in a.schema["enum"]:
                        if isinstance(v, bool):
                            vals += [Val("bool", str(v).upper()), Val("bool", str(v).lower())]
                        elif isinstance(v, int):
                            vals.append(Val("int", str(v)))
                        elif v == "end" or not gen.plain_word(v):
                            vals.append(Val("str", v))
                        else:
                            vals += [Val("word", v.upper()), Val("word", v.lower()), Val("word", v.title())]
                else:
                    for _ in range(4):
                        v = g.alt_value(slot, a)
                        if v is not None and v.kind != "bare":
                            vals.append(v)
                    if a.kind in ("integer", "number"):
                        for k2 in ("minimum", "maximum"):
                            for s in a.extra + (a.schema,):
                                if k2 in s and not s.get("exclusiveMinimum") and float(s[k2]).is_integer():
                                    vals.append(Val("int", str(int(s[k2]))))
                    if a.kind == "string" and gen.bare_ok("roads", slot) and a.schema.get("maxLength") is None:
                        vals.append(Val("bare", "roads"))
                seen = set()
                for v in vals:
                    if (v.kind, repr(v.data)) not in seen:
                        seen.add((v.kind, repr(v.data)))
                        out.append((Attr(slot.kw, v), (a.minv, a.maxv)))
        else:
            out = [(it, (lo, hi)) for it in matrix.alternatives(slot)]
            if slot.cat in ("singleton", "list"):
                c = matrix.minimal(slot.child)
                some = [s for s in vocab.SLOTS[slot.child].values() if s.cat == "simple" and s.kw not in vocab.REQUIRED[slot.child]]
                if some:
                    out.append((Block(slot.child, [c2 for c2 in c.items] + [alts(some[0])[0][0]]), (max(lo, some[0].minv), min(hi, some[0].maxv))))
        _alts[k] = [(it, (max(a, lo), min(b, hi))) for it, (a, b) in out]
    return _alts[k]


def within(rng_):
    """versions at the ends of a range and within it"""
    a, b = rng_
    out = [v for v in VERSIONS if a <= v <= b]
    if not out:
        return []
    return sorted({out[0], out[-1], out[len(out) // 2]})


def base(type_, *kws):
    return [i for i in matrix.minimal(type_).items if getattr(i, "kw", None) not in kws]


def kind_of(it):
    return it.kw if not isinstance(it, Block) else it.type


# ---------------------------------------------------------------------------------------------------------- jobs
def words():
    """every word that the tree or the frozen vocabulary mentions"""
    out = set(vocab.ROOT_TYPES) | set(vocab.KV_BLOCKS) | {"points", "pattern", "projection", "config", "include"}
    for t in vocab.SLOTS:
        for k in vocab.SLOTS[t]:
            out.add(k)
    folder = os.path.join(REPO, "mappyfile")
    for fn in sorted(os.listdir(folder)):
        if fn.endswith((".lark", ".py")):
            with open(os.path.join(folder, fn), encoding="utf-8") as f:
                s = f.read()
            if fn.endswith(".lark"):
                out |= {w.lower() for w in re.findall(r'"([A-Za-z_]{3,})"', s)}
            elif fn == "tokens.py":
                out |= {w.lower() for w in re.findall(r"[A-Za-z_]{3,}", s.split("# Types", 1)[-1])}
    for fn in os.listdir(LIVE):
        if fn.endswith(".json"):
            out.add(fn[:-5])
    return sorted(w for w in out if w != "end")


def word(mon, w, rng):
    """is the word a block at the root; then it has a schema, prints, re-loads"""
    mon.count("words")
    for text in (f"{w.upper()}\nEND", f'{w}\n"key" "value"\nEND', f'{w} NAME "x" END', f'{w} TYPE POINT NAME "y" END', f"{w}\n1 2 3 4\nEND"):
        try:
            d = common.loads(text)
        except common.LARK_ERRORS:
            continue
        for x in d if isinstance(d, list) else [d]:
            if not isinstance(x, dict) or "__type__" not in x:
                mon.violation("untyped", f"the block {w.upper()} parses to {x!r}\n{text}")
                return
            t = x["__type__"]
            mon.case(text)
            mon.count("block_words")
            if t != w and w.startswith(t):
                continue  # the grammar reads MAPS 1 as MAP S 1
            if t != w:
                mon.violation("type", f"the block {w.upper()} has the type {t!r}\n{text}")
                return
            if t in vocab.TYPES:
                try:
                    mappyfile.validate(copy.deepcopy(x))
                except Exception as e:  # noqa
                    mon.violation("no-schema", f"validating a {w.upper()} block raises {type(e).__name__}: {e}\n{text}")
                    return
            del LOG.records[:]
            out = mappyfile.dumps(x)
            d2, e = common.try_loads(out)
            if e is not None or doc.same(doc.plain(x), d2):
                mon.violation("root", f"a {w.upper()} block at the root is printed as\n{out}\nwhich gives {d2 if e is None else common.where(e)}")
                return


def root_type(mon, t, rng):
    """a block type at the root: minimal and rich documents, alone and several"""
    g = gen.Gen(rng, "valid", maxdepth=2, avoid_quote='"\'', dq=False)
    if t == "symbolset":
        for n in (0, 1, 3):
            items = [Block("symbolset", [matrix.minimal("symbol") for _ in range(n)])]
            mon.count("roots")
            if not try_doc(mon, items, "root symbolset", rng, valid=n > 0):
                return
        return
    m = matrix.minimal(t)
    for items in ([m], [m, m], [matrix.minimal("layer"), m]):
        mon.count("roots")
        if not try_doc(mon, items, f"root {t}", rng, valid=len(items) == 1):
            return
    for _ in range(30 if mon.tier == "quick" else 400):
        mon.count("roots")
        if not try_doc(mon, [g.block(t)], f"root {t}", rng):
            return


def store(mon, parent, child, rng):
    """how a child is kept in a parent: one, two, and between other children"""
    c = matrix.minimal(child)
    plural = child not in vocab.SINGLETONS
    key = vocab.PLURALS[child] if plural else child
    valid = any(p == parent and k == key for p, k, _ in vocab.PARENTS[child])
    for kids in ([c], [c, c], [c, matrix.minimal("class" if child != "class" else "feature"), c], [Block(child, [])]):
        if not plural and len(kids) > 1:
            continue
        mon.count("pairs")
        rest = base(parent, child)
        if parent == "symbol":  # SYMBOL CLASS reads as a keyword and its value
            rest = [Attr("name", Val("str", "x"))] + [i for i in rest if kind_of(i) != "name"]
        first = parent == "symbol" or rng.random() < 0.5 and len(kids) < 3
        b = Block(parent, rest + kids if first else kids + rest)
        if valid and len(kids) < 2 and kids[0].items == c.items:
            if not try_doc(mon, [b], f"{child} in {parent}", rng, within(meet((parent, key)))):
                return
        elif not try_doc(mon, [b], f"{child} in {parent}", rng, valid=False):
            return


def meet(*pk):
    lo, hi = 0.0, vocab.INF
    for t, k in pk:
        s = vocab.slot(t, k)
        lo, hi = max(lo, s.minv), min(hi, s.maxv)
    return lo, hi


def live_parents(mon):
    """the key under which each schema of the tree keeps objects, against the way the transformer stores them"""
    try:
        live = vocab.slots_from(LIVE, vocab.ROOT_TYPES)
    except (ValueError, KeyError, TypeError) as e:
        mon.count("unmodelled_schemas")
        mon.note = repr(e)
        return
    for t, ks in live.items():
        for k, s in ks.items():
            if s.cat not in ("singleton", "list"):
                continue
            c = s.child
            mon.case(f"schema {t}.{k}")
            mon.count("schema_children")
            text = f"{t} {c} END END" if t != "symbolset" else f"SYMBOLSET {c} END END"
            try:
                d = common.loads(text)
            except common.LARK_ERRORS as e:
                mon.violation("not-parsed", f"{c} in {t}: {common.where(e)}\n{text}")
                return
            if k not in d or isinstance(d[k], list) != (s.cat == "list"):
                mon.violation("storage", f"the schema of {t} keeps {c} objects under {k!r} ({s.cat}), but loading {text!r} gives {common.content(d)}")
                return


def auto(mon):
    """an auto-creating dictionary makes lists for the keys under which lists of objects are stored, and dictionaries for singletons"""
    from mappyfile.ordereddict import CaseInsensitiveOrderedDict

    for child in vocab.TYPES:
        for how in ("new", "loaded", "nested"):
            key = vocab.PLURALS.get(child, child)
            if how == "new":
                d = CaseInsensitiveOrderedDict(CaseInsensitiveOrderedDict)
            elif how == "loaded":
                d = common.loads("LAYER END" if child != "layer" else "MAP END")
            else:
                d = CaseInsensitiveOrderedDict(CaseInsensitiveOrderedDict)["some"]
                if d.default_factory is None:
                    mon.count("no_factory")
                    continue
            mon.case(f"auto {how} {child}")
            for spelled in (key, key.upper()):
                v = d[spelled]
                mon.count("auto_lists")
                if child in vocab.SINGLETONS:
                    if not isinstance(v, dict) or v is not d[key]:
                        mon.violation("auto", f"d[{spelled!r}] of a {how} dictionary is {v!r}")
                        return
                elif not isinstance(v, list) or v or v is not d[key]:
                    mon.violation("auto", f"d[{spelled!r}] of a {how} dictionary is {v!r}, expected an empty list")
                    return
    # built through missing keys, and printed
    for p, slots in vocab.SLOTS.items():
        for k, s in slots.items():
            if s.cat != "list":
                continue
            d = mappyfile.loads("MAP END" if p == "map" else f"{p} END" if p != "symbolset" else "SYMBOLSET END")
            child = common.loads(doc.render([matrix.minimal(s.child)], doc.Style(__import__("random").Random(1), "upper", "space", '"')).text)
            d[k].append(child)
            mon.count("auto_lists")
            mon.case(f"append {p}.{k}")
            try:
                out = mappyfile.dumps(d)
                d2 = common.loads(out)
            except Exception as e:  # noqa
                mon.violation("auto-print", f"a {s.child} appended to {p}[{k!r}]: {type(e).__name__}: {e}")
                return
            r = common.rt_same(d, d2)
            if r:
                mon.violation("auto-print", f"a {s.child} appended to {p}[{k!r}]: {r[1]}\n{out}")
                return


def alone(mon, s, rng):
    for n, (it, vr) in enumerate(alts(s)):
        b = base(s.type, s.kw)
        mon.count("alone")
        for items, plain in (([it] + b, True), (b + [it], False)):
            if not try_doc(mon, [Block(s.type, items)], f"{s.type}.{s.kw}#{n}", rng, within(req(s.type, vr, s.kw)), plain):
                return


def req(type_, vr, *kws):
    """the versions a block with its required keywords is available for"""
    lo, hi = vr
    a, b = vocab.version_range(vocab.schema(type_))
    lo, hi = max(lo, a), min(hi, b)
    for i in base(type_, *kws):
        s = vocab.slot(type_, kind_of(i) if not isinstance(i, Block) else vocab.PLURALS.get(i.type, i.type))
        for it, (x, y) in alts(s):
            if it.__class__ is i.__class__ and getattr(it, "val", None) is not None and it.val.kind == i.val.kind:
                lo, hi = max(lo, x), min(hi, y)
                break
        else:
            lo, hi = max(lo, s.minv), min(hi, s.maxv)
    return lo, hi


def neighbours(mon, type_, kw, rng):
    """the keyword with every other keyword of the type after it, and before it; at the start and at the end of the block"""
    a = vocab.slot(type_, kw)
    reps = 1 if mon.tier == "quick" else 6
    for kw2, b in vocab.SLOTS[type_].items():
        if kw2 == kw and (a.cat not in ("repeated", "list") or a.schema.get("maxItems", 9) < 2):
            continue
        for r in range(reps):
            x, y = rng.choice(alts(a))[0], rng.choice(alts(b))[0]
            rest = base(type_, kw, kw2)
            mon.count("first")
            if not try_doc(mon, [Block(type_, [x, y] + rest)], f"{type_}: {kw} first, then {kw2}", rng):
                return
            x, y = rng.choice(alts(a))[0], rng.choice(alts(b))[0]
            mon.count("last")
            if not try_doc(mon, [Block(type_, rest + [y, x])], f"{type_}: {kw} last, after {kw2}", rng):
                return
    if mon.tier != "quick":
        for n in range(len(alts(a))):
            for kw2, b in vocab.SLOTS[type_].items():
                if kw2 == kw:
                    continue
                x, y = alts(a)[n][0], rng.choice(alts(b))[0]
                rest = base(type_, kw, kw2)
                mon.count("first")
                if not try_doc(mon, [Block(type_, rng.choice([[x, y] + rest, rest + [x, y], [y, x] + rest]))], f"{type_}: {kw}#{n} with {kw2}", rng):
                    return


def middle(mon, s, rng):
    """every alternative between two random keywords"""
    others = [o for k, o in vocab.SLOTS[s.type].items() if k != s.kw] if s.type in vocab.SLOTS else []
    for n, (it, _) in enumerate(alts(s)):
        for _ in range(1 if mon.tier == "quick" else 12):
            near = [rng.choice(alts(o))[0] for o in rng.sample(others, min(2, len(others)))]
            if not near:
                continue
            mon.count("middle")
            rest = base(s.type, s.kw, *[getattr(i, "kw", None) for i in near])
            rest = [i for i in rest if kind_of(i) not in [kind_of(o) for o in near]]
            if not try_doc(mon, [Block(s.type, near[:1] + [it] + near[1:] + rest)], f"{s.type}.{s.kw}#{n} between {[kind_of(o) for o in near]}", rng):
                return


def contexts(mon, s, rng):
    """the keyword within a block within each parent of its type, at any depth: first, last, only"""
    if s.type not in vocab.PARENTS:
        return
    todo = alts(s)
    if mon.tier == "quick" and len(todo) > 6:
        todo = rng.sample(todo, 6)
    for n, (it, vr) in enumerate(todo):
        for p, k, many in vocab.PARENTS[s.type]:
            mon.count("contexts")
            rest = base(s.type, s.kw)
            b = Block(s.type, rng.choice([[it] + rest, rest + [it]]))
            pr = base(p, k)
            b = Block(p, rng.choice([pr + [b], [b] + pr, pr[:1] + [b] + pr[1:], pr + ([b, b] if many and vocab.slot(p, k).schema.get("maxItems", 9) > 1 else [b])]))
            vr2 = req(p, req(s.type, vr, s.kw), k)
            vr2 = (max(vr2[0], vocab.slot(p, k).minv), min(vr2[1], vocab.slot(p, k).maxv))
            while p != "map" and vocab.PARENTS.get(p) and rng.random() < 0.5:
                q, k2, _ = rng.choice(vocab.PARENTS[p])
                b = Block(q, base(q, k2) + [b])
                sl = vocab.slot(q, k2)
                vr2 = req(q, (max(vr2[0], sl.minv), min(vr2[1], sl.maxv)), k2)
                p = q
            if not try_doc(mon, [b], f"{s.type}.{s.kw} within {p}", rng, within(vr2)[:1] if vr2[0] <= vr2[1] else ()):
                return


# ------------------------------------------------------------------------------------------------------- defaults
def defaults(mon):
    """every default declared in a schema file, at any depth, against the schema it is declared in"""
    for fn in sorted(os.listdir(LIVE)):
        if not fn.endswith(".json"):
            continue
        with open(os.path.join(LIVE, fn), encoding="utf-8") as f:
            s = json.load(f)
        for path, node in nodes(s, ()):
            if "default" not in node or path and path[-1] in ("properties", "patternProperties"):
                continue
            v = node["default"]
            mon.count("defaults")
            mon.case(f"{fn} {path}")
            name = f"{fn[:-5]}.{'.'.join(str(p) for p in path if p != 'properties')}"
            if not schemaeval.Eval(SCHEMAS).valid(schemaeval.lower(v), node) and not schemaeval.Eval(SCHEMAS).valid(v, node):
                mon.violation(f"default:{name}={v!r}", f"the default {v!r} of {name} is not valid for {json.dumps({k: x for k, x in node.items() if k != 'metadata'})[:300]}")
                continue
            for ver in VERSIONS:
                ev = schemaeval.Eval(SCHEMAS, ver)
                if ev.prop_available(node) and not ev.valid(schemaeval.lower(v), node) and not ev.valid(v, node):
                    mon.violation(f"default-version:{name}", f"the default {v!r} of {name} is not valid for version {ver}")
                    break


def nodes(s, path):
    if isinstance(s, dict):
        yield path, s
        for k, v in s.items():
            yield from nodes(v, path + (k,))
    elif isinstance(s, list):
        for n, v in enumerate(s):
            yield from nodes(v, path + (n,))


REQUIRED_MESSAGE = "is a required property"


def created(mon, t):
    for v in [None] + VERSIONS:
        d = mappyfile.create(t, v) if v is not None else mappyfile.create(t)
        mon.count("created")
        mon.case(f"create {t} {v}")
        label = f"create({t!r}, {v})"
        keys = [k for k in d if k != "__type__"]
        mon.count("created_keys", len(keys))
        if d.get("__type__") != t:
            mon.violation("create-type", f"{label} has the type {d.get('__type__')!r}")
            return
        # the defaults declared for that version
        ev = schemaeval.Eval(SCHEMAS, v)
        want = {k: (p["default"] if "default" in p else SCHEMAS.resolve(p).get("default")) for k, p in SCHEMAS.doc(t)["properties"].items()
                if ev.prop_available(p) and "default" in SCHEMAS.resolve(p)}
        got = {k: d[k] for k in keys}
        if want != got:
            diff = sorted(k for k in set(want) | set(got) if want.get(k) != got.get(k) or (k in want) != (k in got))
            mon.violation("create-defaults", f"{label}: differs from the defaults declared in {diff}: {[(got.get(k), want.get(k)) for k in diff]}")
            return
        if not keys and t in vocab.KV_BLOCKS:
            mon.count("empty_kv")
        bad = []
        del LOG.records[:]
        m = mappyfile.validate(copy.deepcopy(d), version=v) if v is not None else mappyfile.validate(copy.deepcopy(d))
        for e in m:
            if REQUIRED_MESSAGE in e["error"]:
                mon.count("missing_required")
            elif not ev.prop_available(SCHEMAS.doc(t)):
                mon.count("type_not_available")
            else:
                k = next((k for k in keys if k.upper() in e["message"]), "")
                bad.append(k)
                mon.violation(f"create-valid:{t}.{k}={d.get(k)!r}", f"{label}: {e['message']} - {e['error']}")
        out = mappyfile.dumps(d)
        if LOG.records:
            mon.violation("create-lookup", f"{label}: printing logged {LOG.records[0]}")
            return
        d2, e = common.try_loads(out)
        if e is not None:
            mon.violation("create-reload", f"{label}: {common.where(e)}\n{out}")
            return
        r = common.rt_same(d, d2)
        if r:
            mon.violation("create-reload", f"{label}: {r[1]}\n{out}")
            return
        m2 = mappyfile.validate(d2, version=v) if v is not None else mappyfile.validate(d2)
        a, b = sorted(x["error"].lower() for x in m), sorted(x["error"].lower() for x in m2)
        if len(a) != len(b):
            mon.violation("create-revalid", f"{label}: {a} became {b} after printing and loading\n{out}")
            return
        # within the parents of the type
        for p, k, many in vocab.PARENTS.get(t, []):
            par = mappyfile.create(p, v) if v is not None else mappyfile.create(p)
            par[k] = [d] if many else d
            out = mappyfile.dumps(par)
            mon.count("created_nested")
            d2, e = common.try_loads(out)
            r = common.rt_same(par, d2) if e is None else ("", common.where(e))
            if r:
                mon.violation("create-nested", f"{label} within create({p!r}): {r[1]}\n{out}")
                return


def unit(job, i, rng, mon):
    if job == "words":
        for w in words()[i::NU]:
            word(mon, w, rng)
    elif job == "types":
        if i == 0:
            live_parents(mon)
            auto(mon)
        root_type(mon, vocab.ROOT_TYPES[i], rng)
    elif job == "pairs":
        for c in vocab.TYPES:
            store(mon, vocab.TYPES[i], c, rng)
    elif job == "neighbours":
        neighbours(mon, *PAIRS[i], rng)
    elif job == "defaults":
        defaults(mon)
    elif job == "create":
        names = vocab.ROOT_TYPES + list(vocab.KV_BLOCKS)
        t = names[i]
        if os.path.exists(os.path.join(LIVE, t + ".json")):
            created(mon, t)
        elif t in vocab.ROOT_TYPES:
            mon.violation("no-schema", f"there is no schema for {t}")
    else:
        n = {"alone": NU * 2, "middle": NU * 2, "contexts": NU}[job]
        for s in SLOTS[i::n]:
            {"alone": alone, "middle": middle, "contexts": contexts}[job](mon, s, rng)
