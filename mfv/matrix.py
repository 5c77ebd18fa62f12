"""
The exhaustive part of the workloads: every block type x keyword x value alternative (and x value shape the
grammar reads), as one-keyword documents of our own representation.
"""

from __future__ import annotations

import random

from . import gen, vocab
from .doc import Attr, Block, Config, KV, Pairs, Proj, Val
from . import expr


def alternatives(slot, mode="valid"):
    """a few items for every alternative the schema lists for a keyword"""
    rng = random.Random(f"{slot.type}.{slot.kw}")
    g = gen.Gen(rng, mode, avoid_quote='"\'', dq=False)
    c = slot.cat
    out = []
    if c == "simple":
        for a in slot.alts:
            if a.kind == "enum":
                for v in a.schema["enum"]:
                    if isinstance(v, bool):
                        out.append(Attr(slot.kw, Val("bool", str(v))))
                    elif isinstance(v, int):
                        out.append(Attr(slot.kw, Val("int", str(v))))
                    elif v == "end" or not gen.plain_word(v):
                        out.append(Attr(slot.kw, Val("str", v)))
                    else:
                        for w in (v.upper(), v.lower()):
                            out.append(Attr(slot.kw, Val("word", w)))
                continue
            for _ in range(3):
                v = g.alt_value(slot, a)
                if v is not None:
                    out.append(Attr(slot.kw, v))
    elif c == "repeated":
        out.append(Attr(slot.kw, Val("str", "one.map")))
    elif c == "kv":
        out.append(KV(slot.kw, [(Val("str", "Key one"), Val("str", "value"))]))
        out.append(KV(slot.kw, []))
    elif c == "config":
        out.append(Config(Val("str", "MS_ERRORFILE"), Val("str", "stderr")))
    elif c == "projection":
        out.append(Proj("AUTO"))
        out.append(Proj([Val("str", "init=epsg:4326")]))
        out.append(Proj([Val("str", "proj=utm"), Val("str", "zone=15")]))
    elif c in ("points", "pattern"):
        out.append(Pairs(slot.kw, [("1", "2")]))
        out.append(Pairs(slot.kw, [("1", "2"), ("3.5", "-4")]))
    elif c in ("singleton", "list"):
        out.append(minimal(slot.child))
    return out


def minimal(type_):
    """a block with only its required keywords"""
    items = []
    for k in vocab.REQUIRED[type_]:
        s = vocab.slot(type_, k)
        if s is not None:
            items.append(alternatives(s)[0])
    return Block(type_, items)


SHAPES = None


def shapes(slot):
    """one value of every shape the grammar reads, for any simple keyword"""
    a = ("arith", None)
    vals = [
        Val("str", "two words"), Val("str", "word"), Val("str", ""), Val("str", "123"), Val("str", "1.5"),
        Val("str", "true"), Val("str", "x=1"), Val("str", "%20a"),
        Val("int", "7"), Val("int", "-3"), Val("int", "0"), Val("float", "1.5"), Val("float", "-0.25"),
        Val("float", "1e3"), Val("bool", "TRUE"), Val("bool", "FALSE"),
        Val("nums", ["1", "2"]), Val("nums", ["1", "2.5"]), Val("nums", ["0", "128", "255"]), Val("nums", ["-1", "-1", "-1"]),
        Val("nums", ["0", "1.5", "-2", "3"]), Val("nums", ["0", "0", "0", "255", "255", "255"]),
        Val("hex", "#FFaa00"), Val("hex", "#fff"), Val("hexrange", ["#000000", "#FFFFFF"]),
        Val("bind", "[Field_1]"), Val("bindpair", ["[a]", "[b]"]), Val("mixed", ["1", "[b]"]), Val("mixed", ["[a]", "2"]),
        Val("regex", "/^a b$/"), Val("regex", "/ab/i"), Val("istr", "'Ab c'i"), Val("list", "{a,b c,1}"),
        Val("rtvar", "%var%"), Val("path", "a/b.png"), Val("path", "./c.d"),
        Val("expr", expr.boolean(random.Random(5), 2)), Val("expr", expr.boolean(random.Random(6), 3)),
    ]
    w = "someword"
    if gen.bare_ok(w, slot):
        vals.append(Val("bare", w))
    return [Attr(slot.kw, v) for v in vals]


def documents():
    """(label, [items]) for every type x keyword x alternative, inside a minimal block of its type"""
    for t in vocab.ROOT_TYPES:
        if t == "symbolset":
            continue
        for kw, s in vocab.SLOTS[t].items():
            for n, it in enumerate(alternatives(s)):
                base = minimal(t)
                items = [i for i in base.items if getattr(i, "kw", None) != kw]
                yield f"{t}.{kw}#{n}", [Block(t, items + [it])], s, it


def shape_documents():
    for t in vocab.TYPES:
        for kw, s in vocab.SLOTS[t].items():
            if s.cat == "simple":
                for n, it in enumerate(shapes(s)):
                    yield f"{t}.{kw}~{n}", [Block(t, [it])], s, it
