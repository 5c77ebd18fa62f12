"""C03: the printed text says exactly what the dictionary says"""

from __future__ import annotations

import copy
import random

from mfv import common, doc, gen, matrix, mutate, reader, vocab
from mfv.common import mappyfile
from mfv.doc import Block

PROPERTY = "C03"
LEVEL = "exploration"
RULE = (
    "cases are dictionaries (loaded from the matrix, corpus, random documents and accepted mutants; built with create(); "
    "plain dicts; each also after random histories of edits through the dict API) x options. The printed text is read by an "
    "independent tokenizer and reader and compared, object by object and token by token, with the dictionary, lexical class "
    "included. Dictionaries with a value that has no representation must be refused. Non-trivial: at least one keyword; "
    "counted by (text, options)."
)
ASSUMPTIONS = [
    "values listed under the known findings of C01 are left out",
    "a value such as FILTER 'NOT [a]' may be written quoted or not",
]


def start(tier):
    global DOCS
    common.corpus()
    DOCS = list(matrix.documents())


def setup(tier):
    common.fast_lark()
    start(tier)


def plan(tier):
    big = tier == "thorough"
    return [
        ("matrix", 145, 5),
        ("corpus", len(common.corpus()), 8),
        ("random", 10000 if big else 2400, 10),
        ("edits", 10000 if big else 2400, 10),
        ("created", 3000 if big else 800, 10),
        ("refuse", 120 if big else 76, 1),
        ("mutant", 6000 if big else 800, 10),
        ("values", 4000 if big else 1200, 10),
        ("save", 60 if big else 32, 1),
    ]


def REQUIRED(tier):
    return {"evaluations": 10000, "edits": 5000, "refused": 1000, "hidden_keys": 1000, "api_dump": 50}


def observe(mon, d, o, label, printer=None):
    c = copy.deepcopy(d)
    out = mappyfile.dumps(c, **o) if printer is None else printer(c, o)
    mon.case(out + repr(sorted(o.items())), len(out) > 12)
    nl = o.get("newlinechar", "\n")
    # with separate_complex_types the argument itself is put in the printed order
    e = reader.compare(out, c if o.get("separate_complex_types") else d, nl)
    if e:
        mon.violation("text-differs", f"{label} {o}: {e}\n--- dictionary\n{common.short(repr(doc.plain(d)), 3000)}\n"
                      f"--- text\n{out}")
    return out


def ok(d, text=""):
    return not (common.unrepresentable(text, d, '"') | common.unrepresentable(text, d, "'"))


# -------------------------------------------------------------------------------------------------- edits
HIDDEN = ["__position__", "__comments__x__", "__foo__", "__my_note__", "____", "__a__", "__X__", "__type2__"]


def random_value(rng, slot, g):
    """a value for a keyword, as the dictionary holds it"""
    a = g.attr(slot)
    return a.val.expected()


def plainval(v):
    if isinstance(v, doc.Exp):
        return None
    return v


def edit(rng, d, g, mon):
    objs = [x for p, x in common.objects_of(d)]
    o = rng.choice(objs)
    t = o.get("__type__")
    x = rng.random()
    mon.count("edits")
    keys = [k for k in o if not doc.is_hidden(k)]
    if t in vocab.KV_BLOCKS:
        k = rng.choice(gen.Gen.KEYS + ["New Key", "x"])
        if x < 0.6:
            o[k] = rng.choice([g.string(None), 5, 1.5, "v", "", 0, 'a"b\\\'c', "a'b\\\"c", " on "])
        elif keys:
            del o[rng.choice(keys)]
        return "kv"
    if x < 0.12 and keys:
        del o[rng.choice(keys)]
        return "del"
    if x < 0.2 and keys:
        o.pop(rng.choice(keys).upper() if hasattr(o, "lower_keys") else rng.choice(keys), None)
        return "pop"
    if x < 0.35:
        h = rng.choice(HIDDEN)
        o[h] = rng.choice([1, "x", {}, None, [1], {"a": {"line": 1}}, object])
        mon.count("hidden_keys")
        return "hidden"
    slots = vocab.SLOTS.get(t)
    if not slots:
        return "none"
    s = rng.choice(list(slots.values()))
    k = rng.choice([s.kw, s.kw.upper(), s.kw.title()]) if type(o) is not dict else s.kw
    c = s.cat
    if c == "simple":
        v = plainval(random_value(rng, s, g))
        if v is not None:
            if isinstance(v, list) and rng.random() < 0.3:
                v = tuple(v)
            if rng.random() < 0.3:
                o.update({k: v})
            else:
                o[k] = v
    elif c == "repeated":
        if s.kw == "include":
            return "none"
        x = rng.random()
        if x < 0.3:
            o[k] = "SINGLE=1"
        elif x < 0.6 and isinstance(o.get(k), list):
            o[k].append(rng.choice(["A=1", "b c", 7, True, [1, 2]]))
        else:
            o[k] = ["A=1", g.string(None)]
    elif c == "kv":
        o[k] = {"__type__": s.kw, "key": "v", "n": 3} if rng.random() < 0.5 else {"only": "x"}
        if rng.random() < 0.2:
            o[k] = {}
    elif c == "config":
        o[k] = {"ms_errorfile": "stderr", "proj_lib": g.string(None)}
    elif c == "projection":
        o[k] = rng.choice(["init=epsg:4326", ["proj=utm", "zone=1"], ["AUTO"], "auto", [], "AUTO:42001", ["autos"], ["auto", "auto"], [" auto"], ['x \\"y\\" z'], g.string(None)])
    elif c == "points":
        o[k] = rng.choice([[[1, 2], (3.5, 4)], [[[1, 2]], [[3, 4], [5, 6]]], [(1, 1)], [], [[], [[1, 2]]], [[[1, 2]], []], [[[1, 2]], [[1, 2]]], [[], []]])
    elif c == "pattern":
        o[k] = rng.choice([[[1, 2]], [(3, 4), (5.5, 6)], []])
    elif c == "singleton":
        o[k] = common.loads(doc.render([g.block(s.child, 3)], doc.Style(rng)).text)
    elif c == "list":
        new = common.loads(doc.render([g.block(s.child, 3)], doc.Style(rng)).text)
        if rng.random() < 0.3:
            new = doc.plain(new)
        if isinstance(o.get(k), list):
            o[k].insert(rng.randint(0, len(o[k])), new)
        else:
            o[k] = [new]
    return c


# strings that are nearly of another lexical class
NEARLY = ["/a/b/", "/a/ii", "/a/I", "/a", "/a\nb/", "%a%b%", "%a%%b%", "%a\nb%", "%a", "[a b]", "[a][b]", "[ab", "[a]i", "[]", "{a", "a}", "(a", "a)",
          "'x'i", "'a' b'i", "'x'I", "`x`", "#ff00zz", "#fff #fff", "#", "NOT a", "NOT", "not (a", "NOT(a", "a:b:c", "a-b", "-a", "_", "1a", "1 2", "+1", ".5.",
          "config", "Points", "END ", "True", "NULL", "off", "Layer-1", ["[a b]", 1], ["[a]", 0.0], ["#ff0000", "[a]"], [-0.0, 1e22], ("[a]", 1), [1, "x y"]]

NOWHERE = [{}, None, [], [None], [[1, 2]], [{}], [1, None], {"a": 1}, (), [True]]


def refused(mon, d, label):
    """dumps must raise"""
    try:
        out = mappyfile.dumps(d)
    except Exception:  # noqa: any error will do
        mon.count("refused")
        return
    mon.violation("not-refused", f"{label}: {common.short(repr(d), 1500)}\n--- was written as\n{out}")


def unit(job, i, rng, mon):
    g = gen.Gen(rng, rng.choice(["valid", "loose"]), avoid_quote="'\"", multiline=rng.random() < 0.2,
                includes=rng.random() < 0.2)
    if job == "matrix":
        for label, items, slot, it in DOCS[i * 10:i * 10 + 10]:
            d = common.loads(doc.render(items, doc.Style(rng)).text)
            observe(mon, d, dict(common.DEFAULTS), label)
            observe(mon, d, common.options(rng), label)
    elif job == "corpus":
        fn, text = common.corpus()[i]
        d, e = common.try_loads(text)
        if e is not None or not d or not ok(d, text):
            return
        for k in range(3):
            observe(mon, d, common.options(rng) if k else dict(common.DEFAULTS), fn)
    elif job == "random":
        for k in range(6):
            g.nblocks = 0
            items = g.document()
            text = doc.render(items, doc.Style(rng, comments=rng.random() < 0.3)).text
            d = common.loads(text, include_position=rng.random() < 0.3)
            for m in range(2):
                observe(mon, d, common.options(rng), "random")
            if k == 0:
                mon.sample(text)
            observe(mon, doc.plain(d), common.options(rng), "plain dict")
    elif job == "mutant":
        for k in range(12):
            text = mutate.mutant(rng, mutate.source(rng))
            d, e = common.try_loads(text)
            if e is not None or not d or not ok(d, text):
                continue
            mon.count("mutants")
            observe(mon, d, common.options(rng), "mutant")
    elif job == "edits":
        for k in range(2):
            g.nblocks = 0
            d = common.loads(doc.render([g.block(rng.choice(vocab.TYPES))], doc.Style(rng)).text)
            hist = []
            for m in range(rng.choice([1, 3, 6, 12])):
                hist.append(edit(rng, d, g, mon))
                if not ok(d):
                    mon.count("left_out")
                    break
                observe(mon, d, common.options(rng) if m % 2 else dict(common.DEFAULTS), f"after {hist}")
    elif job == "created":
        for k in range(3):
            t = rng.choice(vocab.TYPES)
            d = mappyfile.create(t, version=rng.choice([None, None, 7.6, 8.0, 6.0]))
            for key in ("backgroundshadowsize",):
                d.pop(key, None)
            hist = []
            observe(mon, d, dict(common.DEFAULTS), f"create({t})")
            for m in range(rng.choice([1, 3, 6])):
                hist.append(edit(rng, d, g, mon))
                if not ok(d):
                    break
                observe(mon, d, common.options(rng), f"create({t}) and {hist}")
    elif job == "values":
        # one keyword set to every kind of value, on a plain or Mapfile dict
        for k in range(10):
            t = rng.choice(vocab.TYPES)
            s = rng.choice([s for s in vocab.SLOTS[t].values() if s.cat == "simple"])
            v = rng.choice([
                True, False, 0, 1, -5, 2.5, 1e22, 1e-7, 123456789012345678901, "word", "two words", "", "5", "é 中",
                "%var%", [1, 2], [1, 2, 3], (0, 0, 255), [1.5, "[a]"], ["[a]", "[b]"], "[attr]", "#ff0000",
                ["#ff0000", "#00ff00"], "a.b", "x/y", "ON", "on", "auto", "true", "layer", "END", "http://a.b/c?d=e&f=%20",
                "style", "not", "null", "C:\\a b",
            ] + NEARLY * (rng.random() < 0.5))
            d = {"__type__": t, s.kw: v} if rng.random() < 0.5 else common.loads(f"{t} END")
            d[s.kw] = v
            if rng.random() < 0.3:
                d["__x__"] = 1
            if isinstance(v, list) and not v:
                continue
            if ok(d, f'"{v}"'):
                observe(mon, d, common.options(rng), f"{t}.{s.kw} = {v!r}")
    elif job == "refuse":
        t = vocab.TYPES[i % len(vocab.TYPES)]
        for kw, s in vocab.SLOTS[t].items():
            if s.cat == "simple":
                for v in NOWHERE:
                    d = common.loads(f"{t} END")
                    d[kw] = copy.deepcopy(v)
                    mon.case(f"{t}{kw}{v!r}")
                    refused(mon, d, f"{t}.{kw} = {v!r}")
                d = common.loads(f"{t} END")
                d[kw]  # noqa: reading a missing key creates an empty dictionary
                mon.case(f"{t}{kw} read")
                refused(mon, d, f"reading the missing key {t}.{kw}")
            elif s.cat == "repeated":
                for v in ({}, [{}], [None], [[]], None):
                    refused(mon, {"__type__": t, kw: v}, f"{t}.{kw} = {v!r}")
            elif s.cat == "kv":
                for v in ({"a": {}}, {"a": None}, {"a": [1]}):
                    refused(mon, {"__type__": t, kw: v}, f"{t}.{kw} = {v!r}")
            elif s.cat == "config":
                for v in ({"a": {}}, {"a": None}, {"a": [1]}):
                    refused(mon, {"__type__": t, kw: v}, f"{t}.{kw} = {v!r}")
            elif s.cat in ("points", "pattern"):
                for v in ([{}], [[1]], [[1, None]], [[1, {}]], [[1, 2, 3]], None, {}):
                    refused(mon, {"__type__": t, kw: v}, f"{t}.{kw} = {v!r}")
            elif s.cat == "projection":
                for v in ([{}], [None], {}, None):
                    refused(mon, {"__type__": t, kw: v}, f"{t}.{kw} = {v!r}")
            elif s.cat == "singleton":
                d = common.loads(f"{t} END")
                d[kw]  # noqa
                refused(mon, d, f"reading the missing key {t}.{kw}")
            elif s.cat == "list":
                good = common.loads(f"{s.child} END")
                D = type(good)
                for v in ([{}], [D()], [D(D)], [good, {}], [{}, good], [{"name": "x"}], [None], [1], ["x"], [[]], [[good]], [good, None],
                          [{"__comments__": {}}], [{"__x__": 1}], {}, None, [True], [{"layers": []}], {"a": good}):
                    mon.case(f"{t}{kw}{v!r}")
                    for x in ({"__type__": t, kw: copy.deepcopy(v)}, common.loads(f"{t} END")):
                        if kw not in x:
                            x[kw] = copy.deepcopy(v)
                        refused(mon, x, f"{t}.{kw} = {v!r}")
            if s.cat == "singleton":
                for v in ({"name": "x"}, [{}], None, [], [1], {"__x__": 1}, [common.loads(f"{t} END")]):
                    mon.case(f"{t}{kw}{v!r}")
                    refused(mon, {"__type__": t, kw: v}, f"{t}.{kw} = {v!r}")
        for root in ([{}], {"name": "x"}, [None], [common.loads(f"{t} END"), {}], {"__position__": {}}, [{"__type__": None}], [{"__type__": t + "x"}]):
            mon.case(f"root {root!r}")
            refused(mon, root, f"root {root!r}")
        d = common.loads(f"{t} END")
        d["somethingelse"]  # noqa
        refused(mon, d, f"reading a missing key of {t}")
    elif job == "save":
        import io
        import os

        for k in range(15):
            g.nblocks = 0
            text = doc.render([g.block(rng.choice(vocab.TYPES))], doc.Style(rng)).text
            d = common.loads(text)

            def save(x, o):
                fn = os.path.join(common.scratch(), f"c03-{os.getpid()}.map")
                mappyfile.save(x, fn, **o)
                with open(fn, encoding="utf-8", newline="") as f:
                    s = f.read()
                os.unlink(fn)
                mon.count("api_save")
                return s

            def dump(x, o):
                f = io.StringIO(newline="")
                mappyfile.dump(x, f, **o)
                mon.count("api_dump")
                return f.getvalue()

            observe(mon, d, common.options(rng), "dump", dump)
            observe(mon, d, common.options(rng, newlinechar="\n"), "save", save)
