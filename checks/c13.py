"""C13: position and comment bookkeeping is transparent"""

from __future__ import annotations

import copy
import os
import random

from mfv import common, doc, gen, matrix, mutate, reader, vocab
from mfv.common import mappyfile

PROPERTY = "C13"
LEVEL = "exploration"
RULE = (
    "cases are (text, flags). loads with positions, with comments and with both is compared with the plain load: the same "
    "acceptance (exception, line and column), and after taking out __position__ and __comments__ the same classes, keys, key order, "
    "values and types; no other key is added. dumps of a dictionary with positions is the plain text, byte for byte; with comments, "
    "the text less its comments; also after the same edits on both. Value-shape matrix, keywords given twice, random documents with "
    "comments at every boundary, files of the repository, mutants, token sequences, open and load with includes. "
    "Non-trivial: counted by (text, flags)."
)
ASSUMPTIONS = ["strings with a value that cannot be printed are compared as loaded only"]
HIDDEN = ("__position__", "__comments__")
POS, COM, BOTH = {"include_position": True}, {"include_comments": True}, {"include_position": True, "include_comments": True}


def start(tier):
    global DOCS, SHAPES
    common.corpus()
    DOCS = list(matrix.documents())
    SHAPES = list(matrix.shape_documents())


def setup(tier):
    common.fast_lark()
    start(tier)


def plan(tier):
    big = tier == "thorough"
    return [
        ("matrix", 145, 5),
        ("shapes", 261 if big else 131, 5),
        ("random", 12000 if big else 500, 5),
        ("twice", 4000 if big else 200, 5),
        ("lines", 6000 if big else 250, 5),
        ("corpus", len(common.corpus()), 6),
        ("mutant", 12000 if big else 300, 5),
        ("soup", 4000 if big else 150, 5),
        ("edits", 6000 if big else 250, 5),
        ("files", 60 if big else 8, 1),
    ]


def REQUIRED(tier):
    return {"evaluations": 20000, "commented": 2000, "positions": 20000, "prints": 8000, "refused_alike": 500, "edited": 500}


def outcome(text, flags):
    try:
        return common.quick_loads(text, **flags), None
    except common.LARK_ERRORS as e:
        return None, (type(e).__name__, getattr(e, "line", None), getattr(e, "column", None))


def stripped(x, mon):
    """the same value, in the same classes, without the bookkeeping"""
    if isinstance(x, dict):
        out = []
        for k, v in dict.items(x):
            if k in HIDDEN:
                mon.count("positions" if k == HIDDEN[0] else "comment_dicts")
                continue
            out.append((repr(k), stripped(v, mon)))
        return (type(x).__name__, tuple(out))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(stripped(v, mon) for v in x))
    return (type(x).__name__, repr(x))


def uncommented(text, nl="\n"):
    """the printed text without its comments: lines that hold nothing else go"""
    toks, coms = reader.tokenize(text, nl)
    out, at = [], 0
    for c in coms:
        out += [text[at:c.start], MARK]
        at = c.end
    out.append(text[at:])
    lines = []
    for line in "".join(out).split(nl):
        if MARK in line:
            line = line.replace(MARK, "").rstrip(" \t")
            if not line:
                continue
        lines.append(line)
    return nl.join(lines)


MARK = "\ue123"


def prints(mon, plain, kept, has_comments, o, label, text):
    a, b = printed(plain, o), printed(kept, o)
    mon.count("prints")
    if has_comments and b[0] == "ok" and a[0] == "ok":
        mon.count("prints_with_comments", 1 if a != b else 0)
        try:
            b = ("ok", uncommented(b[1], o["newlinechar"]))
            if o["end_comment"]:
                a = ("ok", uncommented(a[1], o["newlinechar"]))
        except reader.ReadError as e:
            mon.violation("print-unreadable", f"{label} {o}: {e}\n{b[1]}")
            return
    if a != b:
        mon.violation("print-differs", f"{label} {o}\n--- text\n{text}\n--- plain\n{a}\n--- with bookkeeping\n{b}\n--- as printed\n{printed(kept, o)}")


def printed(d, o):
    try:
        return ("ok", mappyfile.dumps(copy.deepcopy(d), **o))
    except Exception as e:  # noqa: what cannot be printed is C03's; here both have to agree
        return ("raised", type(e).__name__)


def observe(mon, rng, text, label, print_it=True):
    plain, err = outcome(text, {})
    want = common.content(plain)
    kept = {}
    for name, f in (("position", POS), ("comments", COM), ("both", BOTH)):
        d, e = outcome(text, f)
        mon.case(text + name)
        if e != err:
            mon.violation("acceptance", f"{label} {name}: plain {err or 'accepted'}, with bookkeeping {e or 'accepted'}\n{text}")
            return None
        if err:
            mon.count("refused_alike")
            continue
        got = stripped(d, mon)
        if got != want:
            r = doc.same(doc.plain(plain), strip_plain(d)) or "classes differ"
            mon.violation("load-differs", f"{label} {name}: {r}\n--- text\n{text}\n--- plain\n{common.short(repr(want), 2000)}\n"
                          f"--- stripped\n{common.short(repr(got), 2000)}")
            return None
        if f is POS and "__comments__" in repr(d) and "__comments__" not in text:
            mon.violation("not-asked", f"{label}: comments were kept without being asked for\n{text}")
        if f is COM and "__position__" in repr(d) and "__position__" not in text:
            mon.violation("not-asked", f"{label}: positions were kept without being asked for\n{text}")
        kept[name] = d
    if err:
        return None
    if print_it:
        # the text of a comment is not parsed again: only strings without either quote are safe to read back
        o = dict(common.DEFAULTS) if rng.random() < 0.4 else common.options(rng, newlinechar=rng.choice(["\n", "\r\n"]))
        prints(mon, plain, kept["position"], False, o, label + " position", text)
        if not common.unrepresentable(text, plain, o["quote"]):
            prints(mon, plain, kept["comments"], True, o, label + " comments", text)
            prints(mon, plain, kept["both"], True, o, label + " both", text)
        else:
            mon.count("left_out")
    return plain, kept


def strip_plain(d):
    return doc.plain(doc.strip(copy.deepcopy(d)))


def commented(rng, text):
    """comments before, after and (in documents written one item a line) at the ends of lines"""
    st = doc.Style(rng, comments=True)
    lead = "".join(st.comment() + "\n" for _ in range(rng.choice([0, 1, 2])))
    tail = "".join("\n" + st.comment() for _ in range(rng.choice([0, 0, 1, 2])))
    return lead + text + tail


def line_comments(rng, items):
    """one item a line, with comments above lines and at their ends"""
    st = doc.Style(rng, comments=True)
    lines, _ = doc.render_lines(items, case=rng.choice(["upper", "lower"]), rng=rng)
    out = []
    for line in lines:
        if rng.random() < 0.2:
            for _ in range(rng.choice([1, 1, 2])):
                out.append("  # " + st.comment_text() if rng.random() < 0.8 else "/* " + st.comment_text().replace("*/", "").strip("/") + " */")
        if rng.random() < 0.3:
            line += "  # " + st.comment_text()
        out.append(line)
    return "\n".join(out)


EDITS = [("name", "edited"), ("NEWKEY", 5), ("status", "ON"), ("extent", [0, 0, 1, 1]), ("metadata", None), ("layers", []),
         ("projection", ["init=epsg:4326"]), ("points", [[1, 2], [3, 4]]), ("processing", ["A=1", "B=2"]), ("type", "line"),
         ("config", {"k": "v"}), ("__hidden__", {"a": 1})]


def edits(mon, rng, pair, text):
    plain, kept = pair
    seed = rng.random()
    copies = {n: copy.deepcopy(d) for n, d in list(kept.items()) + [("plain", plain)]}
    for d in copies.values():
        r = random.Random(seed)
        objs = [x for p, x in common.objects_of(d) if "__type__" in x]
        for _ in range(r.randint(1, 6)):
            o = r.choice(objs)
            x = r.random()
            keys = [k for k in o if not doc.is_hidden(k)]
            if x < 0.3 and keys:
                o.pop(r.choice(keys))
            elif x < 0.5 and keys:
                lists = [k for k in keys if isinstance(o[k], list) and o[k] and isinstance(o[k][0], dict)]
                if lists:
                    k = r.choice(lists)
                    if r.random() < 0.5:
                        del o[k][r.randrange(len(o[k]))]
                    else:
                        o[k].reverse()
            elif x < 0.6 and keys:
                mappyfile.update(o, {r.choice(keys): "__delete__"})
            else:
                k, v = r.choice(EDITS)
                if v is None:
                    # a block of pairs made by the caller
                    v = type(o)()
                    v["__type__"] = "metadata"
                    v["Wms_Title"] = "t"
                o[k] = copy.deepcopy(v)
    mon.count("edited")
    o = common.options(rng, newlinechar="\n", separate_complex_types=rng.random() < 0.3)
    if any(common.unrepresentable(text, copies["plain"], q) for q in "\"'"):
        return
    for n in kept:
        prints(mon, copies["plain"], copies[n], n != "position", o, "edited " + n, text)


def unit(job, i, rng, mon):
    if job == "matrix":
        for label, items, slot, it in DOCS[i * 10:i * 10 + 10]:
            text = doc.render(items, doc.Style(rng, comments=rng.random() < 0.5)).text
            observe(mon, rng, text, label)
    elif job == "shapes":
        step = 1 if mon.tier == "thorough" else 2
        for label, items, slot, it in SHAPES[i * 40 * step:(i + 1) * 40 * step:step]:
            observe(mon, rng, doc.render(items, doc.Style(rng, comments=rng.random() < 0.5)).text, label)
    elif job in ("random", "edits", "lines"):
        for k in range(4):
            g = gen.Gen(rng, rng.choice(["valid", "loose"]), multiline=rng.random() < 0.3, includes=rng.random() < 0.2,
                        avoid_quote="'\"" if rng.random() < 0.7 else '"', maxdepth=4)
            items = g.document()
            if job == "lines":
                text = line_comments(rng, items)
                mon.count("commented")
            else:
                c = rng.random() < 0.75
                text = doc.render(items, doc.Style(rng, comments=c)).text
                if c:
                    text = commented(rng, text)
                    mon.count("commented")
            r = observe(mon, rng, text, job)
            if k == 0 and i < 3:
                mon.sample(text)
            if r is None:
                continue
            if job == "edits":
                for _ in range(3):
                    edits(mon, rng, r, text)
    elif job == "twice":
        # the same keywords, blocks and keys again, where bookkeeping is merged
        for k in range(5):
            g = gen.Gen(rng, "loose", maxdepth=2, kw_p=0.2, avoid_quote="'\"")
            t = rng.choice(sorted(vocab.TYPES))
            b = g.block(t)
            more = list(b.items)
            for it in list(b.items):
                if rng.random() < 0.5:
                    more.insert(rng.randrange(len(more) + 1), it)
            for _ in range(2):
                more.insert(rng.randrange(len(more) + 1), g.kv(rng.choice(["metadata", "validation", "connectionoptions", "values"])))
                more.insert(rng.randrange(len(more) + 1), g.config())
                more.insert(rng.randrange(len(more) + 1), g.projection())
            text = doc.render([doc.Block(t, more)], doc.Style(rng, comments=rng.random() < 0.7)).text
            observe(mon, rng, text, "twice")
            mon.count("given_twice")
    elif job == "corpus":
        fn, text = common.corpus()[i]
        observe(mon, rng, text, fn)
        for _ in range(2):
            # more comments at the ends of lines
            lines = text.split("\n")
            for n in range(len(lines)):
                if rng.random() < 0.2:
                    lines[n] += " # added"
            observe(mon, rng, "\n".join(lines), fn)
    elif job == "mutant":
        for _ in range(8):
            observe(mon, rng, mutate.mutant(rng, mutate.source(rng)), "mutant")
    elif job == "soup":
        from checks.c11 import ALPHA

        for _ in range(20):
            s = " ".join(rng.choice(ALPHA) for _ in range(rng.randint(1, 6)))
            observe(mon, rng, rng.choice([f"{rng.choice(sorted(vocab.TYPES))} {s} END", s]), "soup")
    elif job == "files":
        base = os.path.join(common.scratch(), f"c13-{os.getpid()}-{i}")
        os.makedirs(base)
        for k in range(6):
            g = gen.Gen(rng, "valid", maxdepth=2, kw_p=0.2, avoid_quote="'\"")
            inc = commented(rng, doc.render([g.block("layer")], doc.Style(rng, comments=True)).text)
            top = f'# top\nMAP # m\nINCLUDE "inc.map" # i\n# more\nNAME "x" # n\n{doc.render([g.block("web")], doc.Style(rng, comments=True)).text}\nEND # e'
            for n, t in (("inc.map", inc), ("top.map", top)):
                with open(os.path.join(base, n), "w", encoding="utf-8", newline="") as f:
                    f.write(t)
            fn = os.path.join(base, "top.map")
            plain = mappyfile.open(fn)
            for f in (POS, COM, BOTH):
                with open(fn, encoding="utf-8") as fp:
                    for d in (mappyfile.open(fn, **f), mappyfile.load(fp, **f)):
                        mon.case(top + inc + repr(f))
                        mon.check(stripped(d, mon) == common.content(plain), "load-differs", lambda: f"open {f}\n{top}\n{inc}")
                        prints(mon, plain, d, "include_comments" in f, dict(common.DEFAULTS), "file", top + inc)
