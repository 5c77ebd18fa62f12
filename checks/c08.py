"""C08: recorded positions and the locations in validation messages are exact"""

from __future__ import annotations

import os

from mfv import common, doc, gen, matrix, mutate, schemaeval, vocab
from mfv.common import mappyfile
from mfv.doc import Attr, Block, Config, KV, Pairs, Proj, Val

PROPERTY = "C08"
LEVEL = "exploration"
RULE = (
    "cases are texts whose writer recorded the line and column of every keyword and value token: the matrix, every value "
    "shape, random documents with random separators (LF, CRLF, tabs, form feeds, multi-line comments and strings, astral "
    "characters), keywords given twice, several roots. Every __position__ of the loaded dictionary is compared with the "
    "record (nothing missing, nothing extra), with and without comments; on the corpus and on mutants the text at each "
    "recorded position must be the keyword. Validation: each message of a faulty document must carry the position of its "
    "keyword or block opener, multiset against multiset, located by an own evaluator of the schemas. Non-trivial: at least "
    "one keyword; counted by text."
)
ASSUMPTIONS = [
    "lines end with LF or CRLF; columns count characters",
    "for POINTS, PATTERN, PROJECTION the value positions may be a part of the values (in source order)",
    "an error about a list of blocks (two LABELs in a LEGEND) or about all POINTS of a FEATURE together is located at the "
    "enclosing block or at any of the keywords",
]


def start(tier):
    global DOCS, SHAPES, LIVE
    common.corpus()
    DOCS = list(matrix.documents())
    SHAPES = list(matrix.shape_documents())
    LIVE = schemaeval.Schemas()


def setup(tier):
    common.fast_lark()
    start(tier)


def plan(tier):
    big = tier == "thorough"
    return [
        ("probe", 1, 1),
        ("matrix", 145, 5),
        ("shapes", 261, 5),
        ("random", 16000 if big else 2250, 10),
        ("messages", 16000 if big else 2250, 10),
        ("versions", 2000 if big else 100, 4),
        ("corpus", len(common.corpus()), 8),
        ("mutant", 8000 if big else 750, 10),
        ("edited", 6000 if big else 700, 10),
    ]


def REQUIRED(tier):
    return {"evaluations": 14000, "positions": 100000, "value_positions": 100000, "messages": 3000, "keyword_messages": 1500,
            "object_messages": 800, "text_at_position": 20000, "repeated_positions": 1000}


class Bad(Exception):
    pass


def pos_of(pos):
    """id(item) -> (keyword position, [value positions])"""
    out = {}
    for it, role, p in pos:
        k = out.setdefault(id(it), [None, []])
        if role == "kw":
            k[0] = p
        elif role == "value":
            k[1].append(p)
    return out


def brackets(v):
    if v.kind in ("bindpair", "mixed"):
        return [x.startswith("[") for x in v.data]
    return [v.kind in ("bind", "expr", "list")] * (len(v.data) if isinstance(v.data, list) else 1)


def expect(b, P):
    """the __position__ of a block: {keyword: (line, column, values, exact?)}"""
    kw = {}
    for it in b.items:
        if isinstance(it, (Block, KV)):
            continue
        p, vals = P[id(it)]
        e = (p, vals, not isinstance(it, (Pairs, Proj)))
        if isinstance(it, Attr):
            e += (brackets(it.val),)
        if isinstance(it, Config):
            kw.setdefault("config", {})[it.key.data.lower()] = e
        elif isinstance(it, Pairs) and it.kw == "points" or it.kw in vocab.REPEATED:
            kw.setdefault(it.kw, []).append(e)
        else:
            kw[it.kw] = e
    return kw


def same_entry(mon, got, e, path):
    p, vals, exact = e[:3]
    if not isinstance(got, dict):
        raise Bad(f"{path}: {got!r}")
    mon.count("positions")
    if (got.get("line"), got.get("column")) != p:
        raise Bad(f"{path}: recorded {got.get('line')}:{got.get('column')}, written at {p[0]}:{p[1]}")
    extra = set(got) - {"line", "column", "values"}
    if extra:
        raise Bad(f"{path}: {extra} in the position")
    g = [tuple(x) for x in got.get("values", [])]
    if exact:
        # brackets may be left out
        loose = [i for i, (v, br) in enumerate(zip(vals, e[3])) if br and len(g) == len(vals) and v <= g[i] and (
            i + 1 == len(vals) or g[i] < vals[i + 1])] if len(e) > 3 else []
        if [x for i, x in enumerate(g) if i not in loose] != [x for i, x in enumerate(vals) if i not in loose]:
            raise Bad(f"{path}: value positions {g}, written at {vals}")
    else:
        it = iter(vals)
        if vals and not (g and all(x in it for x in g)):
            raise Bad(f"{path}: value positions {g}, written at {vals}")
    mon.count("value_positions", len(g))


def check_block(mon, b, d, P, path):
    got = d.get("__position__")
    if not isinstance(got, dict):
        raise Bad(f"{path}: no __position__")
    p = P[id(b)][0]
    if (got.get("line"), got.get("column")) != p:
        raise Bad(f"{path}: recorded {got.get('line')}:{got.get('column')}, written at {p[0]}:{p[1]}")
    mon.count("positions")
    want = expect(b, P)
    keys = set(got) - {"line", "column"}
    if keys != set(want):
        raise Bad(f"{path}: positions of {sorted(keys)}, keywords {sorted(want)}")
    for k, e in want.items():
        g = got[k]
        if isinstance(e, dict):
            if set(g) != set(e):
                raise Bad(f"{path}/{k}: positions of {sorted(g)}, keys {sorted(e)}")
            for x in e:
                same_entry(mon, g[x], e[x], f"{path}/{k}/{x}")
        elif isinstance(e, list):
            mon.count("repeated_positions", len(e))
            if len(e) == 1 and isinstance(g, dict):
                g = [g]
            if not isinstance(g, list) or len(g) != len(e):
                raise Bad(f"{path}/{k}: {len(e)} times in the text, positions {g!r}")
            for n, (x, y) in enumerate(zip(g, e)):
                same_entry(mon, x, y, f"{path}/{k}[{n}]")
        else:
            same_entry(mon, g, e, f"{path}/{k}")
    # children
    single, lists = {}, {}
    for it in b.items:
        if isinstance(it, Block):
            if it.type in vocab.SINGLETONS:
                single[it.type] = it
            else:
                lists.setdefault(vocab.PLURALS[it.type], []).append(it)
        elif isinstance(it, KV):
            single[it.kw] = it
    for k, it in single.items():
        check_item(mon, it, d[k], P, f"{path}/{k}")
    for k, its in lists.items():
        for n, (it, x) in enumerate(zip(its, d[k])):
            check_item(mon, it, x, P, f"{path}/{k}[{n}]")


def check_item(mon, it, d, P, path):
    if isinstance(it, Block):
        check_block(mon, it, d, P, path)
    else:
        same_entry(mon, d.get("__position__"), (P[id(it)][0], P[id(it)][1], True), path)


def check_doc(mon, items, r, label, **kw):
    d, e = common.try_loads(r.text, include_position=True, **kw)
    mon.case(r.text + repr(kw), len(r.text) > 12)
    if e is not None:
        mon.violation("rejected", f"{label}: {common.where(e)}\n{r.text}")
        return None
    P = pos_of(r.pos)
    try:
        for it, x in zip(items, d if isinstance(d, list) else [d]):
            check_item(mon, it, x, P, getattr(it, "type", getattr(it, "kw", "")))
    except Bad as ex:
        mon.violation("position", f"{label}: {ex}\n--- text\n{r.text}")
    except (KeyError, TypeError, IndexError) as ex:
        mon.violation("position", f"{label}: {ex!r}\n--- text\n{r.text}\n{common.short(repr(d), 1500)}")
    return d


# ----------------------------------------------------------------------------------------------- messages
def positions_for(d, path):
    """the positions a message about the path may carry"""
    v, obj, rest = d, d, []
    for p in path:
        v = v[p] if not isinstance(v, dict) else dict.__getitem__(v, p)
        if isinstance(v, dict) and "__type__" in v:
            obj, rest = v, []
        else:
            rest.append(p)
    pos = obj["__position__"]
    here = (pos["line"], pos["column"])
    if not rest:
        return {here}
    e = pos.get(rest[0])
    if rest[0] == "config" and isinstance(e, dict):
        return {(x["line"], x["column"]) for k, x in e.items() if len(rest) < 2 or k == rest[1]}
    if isinstance(e, dict):
        return {(e["line"], e["column"])}
    if isinstance(e, list):
        if len(rest) > 1 and isinstance(rest[1], int) and rest[1] < len(e):
            return {(e[rest[1]]["line"], e[rest[1]]["column"])}
        return {(x["line"], x["column"]) for x in e}
    return {here}


def check_messages(mon, d, text, label, version=None):
    roots = d if isinstance(d, list) else [d]
    msgs = mappyfile.validate(d, version=version)
    exp = []
    for x in roots:
        low = schemaeval.lower(x)
        name = schemaeval.schema_name(low)
        for path, kind in schemaeval.Eval(LIVE, version).root(low, name):
            nm = schemaeval.name_of(low, path)[1]
            exp.append((nm, positions_for(x, path), len(path) == 0 or isinstance(path[-1], int)))
    mon.case(text + str(version) + "v", bool(exp))
    left = {}
    for nm, ps, o in exp:
        left.setdefault(nm, []).append(ps)
    for m in msgs:
        mon.count("messages")
        nm = m["message"].removeprefix("ERROR: Invalid value in ")
        at = (m.get("line"), m.get("column"))
        if not any(at in ps for ps in left.get(nm, [])):
            mon.violation("message", f"{label}: {m['message']} ({common.short(m['error'], 150)}) at {at}, expected "
                          f"{sorted(map(sorted, left.get(nm, [])))}\n--- text\n{text}")
            return
        mon.count("object_messages" if nm.lower() in vocab.SLOTS else "keyword_messages")
    # every place blamed has a message
    for nm, ps in left.items():
        have = [(m.get("line"), m.get("column")) for m in msgs if m["message"].endswith(" " + nm)]
        for p in ps:
            if not any(x in p for x in have):
                mon.violation("message", f"{label}: nothing reported for {nm} at {sorted(p)}; got {have}\n--- text\n{text}")
                return


def faulty(rng):
    """items with wrong values, unknown and missing keywords; in text form"""
    g = gen.Gen(rng, "valid", multiline=rng.random() < 0.2, includes=rng.random() < 0.2, maxdepth=4, kw_p=0.2)
    items = g.document()
    blocks = [x for x in doc.walk(items) if isinstance(x, Block)]
    for b in rng.sample(blocks, min(len(blocks), rng.randint(1, 4))):
        x = rng.random()
        if x < 0.25 and b.type not in ("symbol", "style"):
            kw = rng.choice(["zzunknown", "colour", "foo", "naam", "coler"])
            b.items.insert(rng.randint(0, len(b.items)), Attr(kw, rng.choice([Val("int", "5"), Val("str", "a b"),
                                                                             Val("nums", ["1", "2"])])))
        elif x < 0.4 and vocab.REQUIRED[b.type]:
            k = rng.choice(vocab.REQUIRED[b.type])
            b.items[:] = [it for it in b.items if getattr(it, "kw", None) != k and not (
                isinstance(it, Block) and vocab.PLURALS.get(it.type, it.type) == k)]
        else:
            slots = [s for s in vocab.SLOTS[b.type].values() if s.cat in ("simple", "repeated")]
            if not slots:
                continue
            s = rng.choice(slots)
            for _ in range(3):
                v = rng.choice(matrix.shapes(s)).val if s.cat == "simple" else rng.choice([Val("int", "5"), Val("bool", "TRUE"),
                                                                                          Val("str", "x")])
                if v.kind in ("word", "bare", "path", "istr", "regex", "list", "rtvar") and s.cat == "simple" and s.enums:
                    continue
                new = Attr(s.kw, v)
                d, e = common.try_loads(doc.render([Block(b.type, [new])], doc.Style(rng)).text)
                if e is None:
                    if s.cat == "simple":
                        b.items[:] = [it for it in b.items if getattr(it, "kw", None) != s.kw]
                    b.items.insert(rng.randint(0, len(b.items)), new)
                    break
    return items


def spoil(d, rng):
    """makes some of the values inside of lists wrong, whatever their depth, so that only the path of the error says where"""
    spots = []

    def walk(v, inside):
        for k, x in enumerate(v):
            if isinstance(x, list):
                spots.append((v, k))
                walk(x, True)
            elif inside:
                spots.append((v, k))

    for p, o in common.objects_of(d):
        for k, v in dict.items(o):
            if isinstance(v, list) and v and not isinstance(v[0], dict):
                walk(v, True)
    for v, k in rng.sample(spots, min(len(spots), rng.choice([1, 1, 2, 3]))):
        v[k] = rng.choice(["zz", None, True, 5, -1e9, [1, 2, 3], "[x", {"a": 1}])
    return bool(spots)


# ------------------------------------------------------------------------------------- positions in any text
def at_position(mon, text, d, label):
    lines = text.split("\n")

    def word(p, kw, path):
        mon.count("text_at_position")
        line, col = p.get("line"), p.get("column")
        ok = isinstance(line, int) and isinstance(col, int) and 1 <= line <= len(lines) and col >= 1
        if not ok or lines[line - 1][col - 1:col - 1 + len(kw)].lower() != kw:
            raise Bad(f"{path}: at {line}:{col} stands {lines[line - 1][col - 1:col + 20] if ok else None!r}")
        last = (line, col)
        for v in p.get("values", []):
            v = tuple(v)
            at, before = lines[v[0] - 1][v[1] - 1:v[1]], lines[v[0] - 1][:v[1] - 1]
            # the first element of a list can begin with a space
            if v <= last or not (at.strip() or at and before.rstrip().endswith("{")):
                raise Bad(f"{path}: value position {v} after {last}")
            last = v
        return (line, col)

    def go(x, path):
        if isinstance(x, list):
            prev = (0, 0)
            for n, y in enumerate(x):
                p = go(y, f"{path}[{n}]")
                if p:
                    if p <= prev:
                        raise Bad(f"{path}[{n}] at {p} is not after {prev}")
                    prev = p
            return None
        if not isinstance(x, dict) or "__type__" not in x:
            return None
        t = x["__type__"]
        if "__position__" not in x:
            raise Bad(f"{path}: no __position__")
        pos = x["__position__"]
        here = word(pos, t, path)
        for k, v in x.items():
            if doc.is_hidden(k):
                continue
            if isinstance(v, dict) and "__type__" in v:
                go(v, f"{path}/{k}")
            elif isinstance(v, list) and v and isinstance(v[0], dict):
                go(v, f"{path}/{k}")
            elif t not in vocab.KV_BLOCKS and k not in ("line", "column"):
                if k not in pos:
                    raise Bad(f"{path}/{k}: no position")
                ps = pos[k]
                if k == "config" and isinstance(ps, dict) and "line" not in ps:
                    ps = list(ps.values())
                for e in ps if isinstance(ps, list) else [ps]:
                    if word(e, k, f"{path}/{k}") < here:
                        raise Bad(f"{path}/{k} is before its block")
        return here

    mon.case(text, len(text) > 12)
    if any("line" in o or "column" in o for p, o in common.objects_of(d)):
        mon.count("left_out_line_keyword")  # the known finding
        return
    try:
        go(d, "")
    except Bad as ex:
        mon.violation("position", f"{label}: {ex}\n--- text\n{text}")


def unit(job, i, rng, mon):
    if job == "probe":
        d = common.loads("LAYER TYPE POINT\n LINE 5 END", include_position=True)
        mon.count("probes")
        m = mappyfile.validate(d)
        if len(m) != 1 or (m[0].get("line"), m[0].get("column")) != (1, 1) or d["__position__"]["line"] != 1:
            mon.violation("known:line-keyword", f"{m}")
    elif job in ("matrix", "shapes"):
        for label, items, slot, it in (DOCS[i * 10:i * 10 + 10] if job == "matrix" else SHAPES[i * 40:i * 40 + 40]):
            st = doc.Style(rng, comments=rng.random() < 0.3)
            r = doc.render(items, st, lead=rng.choice(["", "", "\n", "# c\n  ", "\r\n\t", "/* a\nb */ "]))
            if job == "shapes":
                if common.try_loads(r.text)[1] is not None:
                    continue
                d = check_doc(mon, items, r, label)
                if d is not None:
                    check_messages(mon, d, r.text, label)
            else:
                check_doc(mon, items, r, label)
    elif job == "random":
        for k in range(5):
            g = gen.Gen(rng, rng.choice(["valid", "loose"]), multiline=rng.random() < 0.4, escapes=rng.random() < 0.2,
                        includes=rng.random() < 0.3, big=rng.random() < 0.05)
            items = g.document()
            if rng.random() < 0.4:  # keywords given twice: the last one counts
                for b in [x for x in doc.walk(items) if isinstance(x, Block)]:
                    for it in list(b.items):
                        s = vocab.SLOTS[b.type].get(getattr(it, "kw", None))
                        if s is not None and rng.random() < 0.2 and s.cat in ("simple", "projection", "pattern", "points", "kv"):
                            b.items[rng.randint(0, len(b.items)):0] = g.slot_items(s, 5)
            r = doc.render(items, doc.Style(rng, comments=rng.random() < 0.5),
                           lead=rng.choice(["", "", "\n", "# c\n  ", "\r\n\t", "/* a\nb */ "]))
            check_doc(mon, items, r, job, include_comments=rng.random() < 0.3)
            if k == 0:
                mon.sample(r.text)
    elif job == "edited":
        for k in range(4):
            g = gen.Gen(rng, "valid", includes=rng.random() < 0.3, kw_p=0.25)
            b = g.block(rng.choice(vocab.ROOT_TYPES + ["feature", "feature", "symbol", "style", "layer", "layer"]))
            r = doc.render([b], doc.Style(rng, comments=rng.random() < 0.3), lead=rng.choice(["", "\n", "# c\n  "]))
            d = common.loads(r.text, include_position=True)
            if spoil(d, rng):
                mon.count("edited")
                check_messages(mon, d, r.text, job)
    elif job in ("messages", "versions"):
        for k in range(5):
            items = faulty(rng)
            r = doc.render(items, doc.Style(rng, comments=rng.random() < 0.3), lead=rng.choice(["", "\n", "# c\n  "]))
            d = check_doc(mon, items, r, job)
            if d is not None:
                v = rng.choice([5.0, 5.6, 6.0, 6.2, 7.0, 7.6, 8.0]) if job == "versions" else None
                check_messages(mon, d, r.text, job, v)
    else:
        for k in range(1 if job == "corpus" else 8):
            label, text = common.corpus()[i] if job == "corpus" else (job, mutate.mutant(rng, mutate.source(rng)))
            d, e = common.try_loads(text, include_position=True)
            if e is None and d:
                at_position(mon, text, d, label)
                collide = any("line" in o or "column" in o for p, o in common.objects_of(d))
                if not collide:
                    check_messages(mon, d, text, label)
