"""C14: kept comments are verbatim, never invented or duplicated, and stay attached"""

from __future__ import annotations

import copy
import os
import re
from collections import Counter

from mfv import common, doc, gen, matrix, mutate, reader, vocab
from mfv.common import mappyfile
from mfv.doc import Attr, Block, Config, KV, Pairs, Proj, Val

PROPERTY = "C14"
LEVEL = "exploration"
RULE = (
    "cases are (source, flags, printing options). A document is written one keyword a line with # and /* */ comments, each with a "
    "tag of its own, at the end of lines and above them; the printed text is tokenised independently and its comments are taken "
    "apart into those of the source: verbatim, none more often than the source has it. A structural walk over source and output in "
    "step then checks that the # comment of every simple keyword ends that keyword's line, and that the comment lines above every "
    "opener of an object, METADATA, VALIDATION or CONNECTIONOPTIONS are the lines directly above it, in order. The text loads "
    "(independently) to what the text printed without comments loads to. Every type x keyword x alternative, every predecessor x opener, "
    "random documents, arbitrary layout, corpus, mutants, included files, histories and edits. Non-trivial: at least one comment written."
)
ASSUMPTIONS = [
    "comments of one keyword are joined with spaces on its line (docs/comments.rst): a written comment may be several of the source, each verbatim",
    "a keyword given twice in a block, a multi-line value and comments at undocumented places: only the verbatim, number and content clauses",
]


def start(tier):
    global DOCS, BOUNDS
    common.corpus()
    DOCS = list(matrix.documents())
    BOUNDS = boundaries()


def setup(tier):
    common.fast_lark()
    start(tier)


def plan(tier):
    big = tier == "thorough"
    return [
        ("matrix", 145, 5),
        ("bounds", 60, 2),
        ("random", 16000 if big else 900, 8),
        ("anywhere", 8000 if big else 375, 8),
        ("corpus", len(common.corpus()), 6),
        ("mutant", 6000 if big else 225, 5),
        ("edits", 6000 if big else 300, 8),
        ("files", 400 if big else 75, 3),
        ("history", 800 if big else 60, 4),
    ]


def REQUIRED(tier):
    return {
        "evaluations": 7000, "comments_written": 120000, "attached_simple": 30000, "attached_above": 9000, "kv_above": 1000,
        "reloaded": 6000, "corpus_comments": 15000, "edited": 1200, "included": 40,
    }


# ------------------------------------------------------------------------------------------------ the oracles
class Undecided(Exception):
    pass


def split(text, left, budget):
    """the comments of `left` (a Counter) that make up the written comment, or None"""
    if left.get(text, 0) > 0:
        left[text] -= 1
        return [text]
    cands = [c for c, n in left.items() if n > 0 and c and c in text]

    def go(at):
        budget[0] -= 1
        if budget[0] < 0:
            raise Undecided
        while at < len(text) and text[at] in " \t":
            at += 1
        if at == len(text):
            return []
        for c in sorted(cands, key=len, reverse=True):
            e = at + len(c)
            if left[c] > 0 and text.startswith(c, at) and (e == len(text) or text[e] in " \t" or c.endswith("*/")):
                left[c] -= 1
                r = go(e)
                if r is not None:
                    return [c] + r
                left[c] += 1
        return None

    return go(0)


def decompose(written, source):
    """{position: [comments of the source]} of the written comment tokens; raises ValueError for one that is not from the source"""
    left = Counter(source)
    out = {}
    budget = [20000]
    rest = []
    for t in written:
        if left.get(t.text, 0) > 0:
            left[t.text] -= 1
            out[t.start] = [t.text]
        else:
            rest.append(t)
    for t in rest:
        r = split(t.text, left, budget)
        if r is None:
            why = "is written more often than it occurs" if split(t.text, Counter(source), budget) else "is not in the source"
            raise ValueError(f"{t.text!r} {why}")
        out[t.start] = r
    return out


class Marked:
    """what the source says about one item: the comments at the end of its line, above it, and after its opener"""

    __slots__ = ("above", "trail", "opener")

    def __init__(self):
        self.above, self.trail, self.opener = [], None, []


def nl_ok(nl):
    return "\n" in nl


def candidates(text):
    """every text of the source that could be a comment, whatever the lexer: a superset of the comments"""
    out = [m.group(1).strip() for m in re.finditer(r"(?=(#[^\r\n]*))", text)]
    return out + [m.group(1).strip() for m in re.finditer(r"(?=(/\*.*?\*/))", text, re.S)]


def conserved(mon, out, nl, source, label, detail, unreadable, more):
    try:
        toks, coms = reader.tokenize(out, nl)
    except reader.ReadError as e:
        if unreadable:
            mon.count("unrepresentable")
        else:
            mon.violation("unreadable", f"{label}: {e}\n{detail()}")
        return None
    mon.count("comments_written", len(coms))
    try:
        parts = decompose(coms, source)
    except ValueError as e:
        if more and not unreadable:
            mon.count("wider_source")
            return conserved(mon, out, nl, more, label, detail, unreadable, None)
        if unreadable:
            mon.count("unrepresentable")
        else:
            mon.violation("not-conserved", f"{label}: {e}\n{detail()}")
        return None
    except Undecided:
        mon.count("undecided")
        return None
    return toks, coms, parts


def content_same(mon, plain, out, o, label, detail, unreadable):
    """the printed text loads to the same as the text without comments; by an independent load of both"""
    if unreadable:
        return
    bare = mappyfile.dumps(copy.deepcopy(plain), **o)
    a, e = common.try_loads(bare)
    if e:
        mon.count("bare_unloadable")  # C03
        return
    b, e = common.try_loads(out)
    mon.count("reloaded")
    if e or common.content(a) != common.content(b):
        r = common.where(e) if e else doc.same(doc.plain(a), doc.plain(b)) or "differs"
        mon.violation("content", f"{label}: {r}\n{detail()}")


def after_comments(out, at, c_at):
    """the end of the comments that follow on the line; a /* */ comment may go on for several"""
    while True:
        n = at + len(GAP.match(out, at).group())
        c = c_at.get(n)
        if c is None:
            return at
        at = c.end


def check_simple(mon, out, nl, it, m, toks, c_at, detail):
    """the # comment m.trail ends the line that the keyword's tokens are on"""
    at = after_comments(out, toks[-1].end, c_at)
    mon.count("attached_simple")
    line = out[toks[-1].end:at]
    if not (line.endswith(m.trail) and line[:-len(m.trail)][-1:] in (" ", "\t") and (at == len(out) or out.startswith(nl, at))):
        mon.violation("simple-moved", f"{it}: {m.trail!r} is not at the end of its line: {line!r}\n{detail()}")
        return False
    return True


GAP = re.compile(r"[ \t]*")


def check_above(mon, out, nl, it, m, head, prev_end, coms, c_at, parts, detail, kv):
    """the comment lines between the previous token's line and the opener"""
    mon.count("attached_above")
    if kv:
        mon.count("kv_above")
    eol = 0
    if prev_end is not None:
        eol = out.find(nl, after_comments(out, prev_end, c_at))
        eol = len(out) if eol < 0 else eol + len(nl)
    got = []
    at = eol
    whole = True
    for c in coms:
        if c.start < at or c.start >= head.start:
            continue
        if not GAP.fullmatch(out[at:c.start]):
            got, whole = [], False  # something else, such as an empty line, in between
        if not out.startswith(nl, c.end):
            whole = False
        got += parts[c.start]
        at = c.end + len(nl)
    if not GAP.fullmatch(out[at:head.start]):
        whole = False
    tail = list(got)
    # what follows on the opener's own line may come last
    for c in reversed(m.opener):
        if tail and tail[-1] == c:
            tail.pop()
    if not whole or not any(t[len(t) - len(m.above):] == m.above for t in (tail, got)):
        mon.violation("above-moved", f"{getattr(it, 'type', None) or it.kw}: above it was {m.above}, now {got}\n{detail()}")
        return False
    return True


def attached(mon, items, marks, out, nl, toks, coms, parts, detail):
    """walk the source and the output in step"""
    try:
        got = reader.read(out, nl)
    except reader.ReadError as e:
        mon.violation("unreadable", f"{e}\n{detail()}")
        return
    before = {}
    prev = None
    for t in toks:
        before[t.start] = prev
        prev = t.end
    c_at = {c.start: c for c in coms}

    def block(its, gits):
        kws = Counter(i.kw for i in its if isinstance(i, Attr))
        attrs = {}
        nested = {}
        for g in gits:
            if g[0] == "attr":
                attrs.setdefault(g[1], g)
            elif g[0] in ("block", "kv"):
                nested.setdefault(g[1], []).append(g)
        seen = Counter()
        kinds = Counter((i.type if isinstance(i, Block) else i.kw) for i in its if isinstance(i, (Block, KV)))
        for i in its:
            m = marks.get(id(i))
            if isinstance(i, Attr) and i.kw not in vocab.REPEATED:
                if kws[i.kw] > 1 or m is None or m.trail is None:
                    continue
                g = attrs.get(i.kw)
                if g is None:
                    mon.violation("missing", f"{i} is not written\n{detail()}")
                    return False
                if not check_simple(mon, out, nl, i, m, g[2], c_at, detail):
                    return False
            elif isinstance(i, (Block, KV)):
                k = i.type if isinstance(i, Block) else i.kw
                lst = nested.get(k, [])
                if (isinstance(i, KV) or k in vocab.SINGLETONS) and kinds[k] > 1:
                    continue
                if seen[k] >= len(lst):
                    mon.violation("missing", f"{k} is not written\n{detail()}")
                    return False
                g = lst[seen[k]]
                seen[k] += 1
                if m is not None and (m.above or m.opener) and k != "values":
                    if not check_above(mon, out, nl, i, m, g[2].head, before[g[2].head.start], coms, c_at, parts, detail, isinstance(i, KV)):
                        return False
                if isinstance(i, Block) and not block(i.items, g[2]):
                    return False
        return True

    block(items, got)


# --------------------------------------------------------------------------------- sources: one keyword a line
class Commenter:
    """comments with tags of their own"""

    def __init__(self, rng, tag="c"):
        self.rng = rng
        self.st = doc.Style(rng)
        self.n = 0
        self.tag = tag
        self.repeat = rng.choice([0, 0, 0.1, 0.4])
        self.all = []

    def again(self, ok):
        """now and then the same comment once more, such as a ruler: mostly the last one, or the one before it"""
        if self.all and self.rng.random() < self.repeat:
            c = self.rng.choice(self.all[-2:]) if self.rng.random() < 0.8 else self.rng.choice(self.all)
            if ok(c):
                self.all.append(c)
                return c

    def hash(self):
        c = self.again(lambda c: c.startswith("#"))
        if c:
            return c
        self.n += 1
        r = self.rng
        if r.random() < 0.07:
            # a ruler, with nothing that tells it from the others
            s = r.choice(["#", "##", "#" * r.randint(3, 40), "# " + "-" * r.randint(1, 30), "#" + "=" * 9, "#*", "#/", "# # #", "#."])
            self.all.append(s)
            return s
        lead = r.choice(["#", "# ", "# ", "##", "#\t", "#!"])
        t = self.st.comment_text() if r.random() < 0.5 else ""
        s = f"{lead}{t} {self.tag}{self.n}" if r.random() < 0.6 else f"{lead}{self.tag}{self.n} {t}"
        s = s.rstrip() + r.choice(["", "", "", " .", "'", '"'])
        self.all.append(s)
        return s

    def c(self, multi=True):
        c = self.again(lambda c: c.startswith("/*") and (multi or "\n" not in c))
        if c:
            return c
        self.n += 1
        r = self.rng
        if r.random() < 0.05:
            s = r.choice(["/**/", "/* */", "/***/", "/*-----*/", "/*#*/"])
            self.all.append(s)
            return s
        t = self.st.comment_text().replace("*/", "") if r.random() < 0.5 else ""
        t = f"{t.strip('/')} {self.tag}{self.n} "
        if multi and r.random() < 0.3:
            t += r.choice(["\nmore", "\n\n # no comment\n", "\n   END\n  "])
        s = "/*" + r.choice(["", " ", "*"]) + t.replace("*/", "").rstrip("/") + r.choice(["*/", " */"])
        self.all.append(s)
        return s

    def any(self, multi=True):
        return self.hash() if self.rng.random() < 0.7 else self.c(multi)


def multiline(line):
    return "\n" in line or "\r" in line


def write_lines(items, rng, com, density=0.6, wild=0.0, newline="\n"):
    """
    The source text and {id(item): Marked}. Documented places: the ends of lines of simple keywords, lines above openers. wild: the
    chance of a comment at any other place.
    """
    indent = rng.choice([0, 1, 2, 4])
    lines, roles = doc.render_lines(items, indent=indent, case=rng.choice(["upper", "lower", "title"]), rng=rng,
                                    quotes=rng.choice(["random", '"', "'"]))
    out = []
    marks = {}
    for line, (it, role, _) in zip(lines, roles):
        m = marks.setdefault(id(it), Marked())
        pad = line[:len(line) - len(line.lstrip(" "))]
        simple = role == "attr" and it.kw not in vocab.REPEATED
        opener = role == "open" and isinstance(it, (Block, KV)) and getattr(it, "kw", "") != "values"
        if rng.random() < 0.1:
            out += [""] * rng.choice([1, 1, 2])
        if opener and rng.random() < density:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                c = com.any()
                m.above.append(c)
                out.append(rng.choice([pad, pad, "", "\t", pad + " "]) + c)
            if rng.random() < 0.1:
                # two of them on one line
                c = com.c(False)
                m.above.append(c)
                c2 = com.hash()
                m.above.append(c2)
                out.append(pad + c + " " + c2)
        elif not opener and rng.random() < (wild if not simple else max(wild, 0.05)):
            for _ in range(rng.choice([1, 1, 2])):
                out.append(pad + com.any())
        if simple and rng.random() < density and not multiline(line):
            x = rng.random()
            if x < 0.1:
                line += " " + com.c(False)
            m.trail = com.hash()
            glued = line[-1] in "\"'" and rng.random() < 0.1
            line += "" if glued else rng.choice([" ", " ", "  ", "\t", "    "])
            line += m.trail
            if x > 0.97:
                line += rng.choice([" ", "\t", "  "])
        elif role == "open":
            if rng.random() >= wild:
                out.append(line)
                continue
            c = com.hash() if rng.random() < 0.7 else com.c(False)
            if opener:
                m.opener.append(c)
            line += " " + c
        elif simple and rng.random() < 0.1:
            line += " " + com.c(False)
        elif rng.random() < wild:
            line += " " + (com.hash() if rng.random() < 0.7 else com.c())
        out.append(line)
    for _ in range(rng.choice([0, 0, 1, 2])):
        out.append(com.any())
    return newline.join(out) + rng.choice(["", newline]), marks


def nls(rng):
    return rng.choice(["\n", "\n", "\r\n", "\n\n"])


def flags(rng):
    return {"include_comments": True, "include_position": rng.random() < 0.3}


def run(mon, rng, items, text, marks, source, label, kept=None, plain=None, quick=True):
    """load, print with some options, observe"""
    f = flags(rng)
    if kept is None:
        kept, e = attempt(text, f, quick)
        if e:
            mon.violation("refused", f"{label} {common.where(e)}\n{text}")
            return None
    if plain is None:
        plain, e = common.try_loads(text)
        if e:
            mon.count("unparseable")
            return None
    o = common.options(rng, newlinechar=nls(rng))
    if rng.random() < 0.3:
        o = dict(common.DEFAULTS)
    before = common.content(kept)
    sep = o["separate_complex_types"]  # rearranges the dictionary it is given
    d = copy.deepcopy(kept) if sep else kept
    out = mappyfile.dumps(d, **o)
    again = mappyfile.dumps(d, **o)
    source = source + ends(plain, o)

    def detail():
        return f"{f} {o}\n--- source\n{text}\n--- printed\n{out}"

    if out != again or (not sep and common.content(kept) != before):
        mon.violation("printing-changes", detail())
    unreadable = bool(common.unrepresentable(text, plain, o["quote"]))
    more = candidates(text) + ends(plain, o) if items is None and label != "edited" else None
    written = conserved(mon, out, o["newlinechar"], source, label, detail, unreadable, more)
    mon.case(text + repr(o), bool(written and written[1]))
    if written is None:
        return None
    toks, coms, parts = written
    if items is not None:
        attached(mon, items, marks, out, o["newlinechar"], toks, coms, parts, detail)
    content_same(mon, plain, out, o, label, detail, unreadable)
    return kept, plain, out


def attempt(text, f, quick=True):
    try:
        return (common.quick_loads if quick else common.loads)(text, **f), None
    except common.LARK_ERRORS as e:
        return None, e


def ends(plain, o):
    """with end_comment, each END gets the comment of its block's name"""
    if not o["end_comment"]:
        return []
    out = []
    for p, x in common.objects_of(plain):
        n = ["# " + x["__type__"].upper()] if "__type__" in x else []
        out += n
    for p, x in common.objects_of(plain):
        for k, v in x.items():
            if k in ("projection", "pattern", "values", "metadata", "validation", "connectionoptions"):
                out.append("# " + k.upper())
            elif k == "points":
                out += ["# POINTS"] * max(1, len(v))
    return out


# ---------------------------------------------------------------------------------------------------- workloads
def boundaries():
    """(parent type, predecessor item or None, opener item) for every kind of predecessor and every opener of the type"""
    out = []
    for t in vocab.ROOT_TYPES:
        slots = list(vocab.SLOTS[t].values())
        openers = [s for s in slots if s.cat in ("singleton", "list", "kv")]
        preds = [None]
        simple = [s for s in slots if s.cat == "simple"]
        preds += simple[:1] + [s for s in slots if s.cat not in ("simple",)]
        for s in openers:
            for p in preds:
                out.append((t, p, s))
    return out


def unit(job, i, rng, mon):
    if job == "matrix":
        for label, items, slot, it in DOCS[i * 10:i * 10 + 10]:
            com = Commenter(rng)
            top = items[0]
            more = list(top.items)
            names = {getattr(x, "kw", None) for x in more}
            for s in rng.sample(list(vocab.SLOTS[top.type].values()), min(4, len(vocab.SLOTS[top.type]))):
                if s.cat == "simple" and s.kw not in names:
                    more.insert(rng.randrange(len(more) + 1), rng.choice(matrix.alternatives(s)))
                    names.add(s.kw)
            rng.shuffle(more)
            items = copy.deepcopy([Block(top.type, more)])
            text, marks = write_lines(items, rng, com, density=0.9)
            run(mon, rng, items, text, marks, com.all, label)
    elif job == "bounds":
        for t, p, s in BOUNDS[i::60]:
            for k in range(3):
                com = Commenter(rng)
                its = []
                if p is not None:
                    its += matrix.alternatives(p)[-1:]
                    if s.cat != "list" and p.kw == s.kw:
                        its = []
                its += matrix.alternatives(s)[:1]
                if rng.random() < 0.5:
                    its += [x for x in matrix.minimal(t).items if getattr(x, "kw", None) not in {getattr(y, "kw", 1) for y in its}]
                items = copy.deepcopy([Block(t, its)])
                text, marks = write_lines(items, rng, com, density=1.0, wild=[0, 0.5, 1][k])
                run(mon, rng, items, text, marks, com.all, f"{t}: {p and p.kw} {s.kw}")
    elif job in ("random", "edits"):
        for k in range(4):
            g = gen.Gen(rng, rng.choice(["valid", "loose"]), multiline=rng.random() < 0.3, includes=rng.random() < 0.2,
                        avoid_quote="'\"" if rng.random() < 0.7 else '"', maxdepth=4)
            items = g.document()
            com = Commenter(rng)
            text, marks = write_lines(items, rng, com, density=rng.choice([0.2, 0.5, 0.9, 1]), wild=rng.choice([0, 0, 0.1, 0.4]),
                                      newline="\r\n" if rng.random() < 0.15 else "\n")
            if rng.random() < 0.15:
                text = "\ufeff"[:0] + text
            r = run(mon, rng, items, text, marks, com.all, job)
            if k == 0 and i < 3:
                mon.sample(text)
            if job == "edits" and r:
                for _ in range(3):
                    edits(mon, rng, r, text, com.all)
    elif job == "anywhere":
        for k in range(4):
            g = gen.Gen(rng, rng.choice(["valid", "loose"]), maxdepth=4, avoid_quote="'\"", multiline=rng.random() < 0.3)
            st = doc.Style(rng, comments=True)
            items = g.document()
            if rng.random() < 0.3:
                items = [items[0], items[0]] if isinstance(items[0], Block) and items[0].type != "symbolset" else items
            text = doc.render(items, st).text
            run(mon, rng, None, text, None, [c.strip() for c in st.made_comments], job)
    elif job in ("corpus", "mutant"):
        if job == "corpus":
            fn, text = common.corpus()[i]
            texts = [(fn, text)] * 3 + [(fn + " again", None)]
        else:
            texts = [("mutant", mutate.mutant(rng, mutate.source(rng))) for _ in range(8)]
        for label, text in texts:
            if text is None:
                d, e = attempt(texts[0][1], {"include_comments": True})
                if e:
                    continue
                text = mappyfile.dumps(d)
            try:
                source = [c.text.strip() for c in reader_comments(text)]
            except reader.ReadError:
                mon.count("untokenised")
                continue
            kept, e = attempt(text, {"include_comments": True})
            if e:
                mon.count("unparseable")
                continue
            mon.count("corpus_comments", len(source))
            try:
                run(mon, rng, None, text, None, source, label, kept)
            except (TypeError, ValueError) as e:
                # a dictionary that has no text, with or without comments (C03)
                try:
                    mappyfile.dumps(common.loads(text))
                except type(e):
                    mon.count("unprintable")
                else:
                    raise
    elif job == "files":
        included(mon, rng, i)
    elif job == "history":
        history(mon, rng)


LOOSE = re.compile(r"\"(?:\\\"|[^\"])*\"|'(?:\\'|[^'])*'|/\*.*?\*/|#[^\r\n]*|\((?:[^()'\"]|\"[^\"]*\"|'[^']*')*\)|.", re.S)


class C:
    def __init__(self, text):
        self.text = text


def reader_comments(text):
    """comments of any source; tokens need no white space between them"""
    try:
        return reader.tokenize(text)[1]
    except reader.ReadError:
        return [C(m) for m in LOOSE.findall(text) if m.startswith("#") or (m.startswith("/*") and len(m) > 3)]


def edits(mon, rng, r, text, source):
    kept, plain, _ = r
    seed = rng.random()
    import random

    pair = [copy.deepcopy(kept), copy.deepcopy(plain)]
    for d in pair:
        q = random.Random(seed)
        objs = [x for p, x in common.objects_of(d) if "__type__" in x]
        for _ in range(q.randint(1, 6)):
            o = q.choice(objs)
            keys = [k for k in o if not doc.is_hidden(k)]
            if not keys:
                continue
            k = q.choice(keys)
            x = q.random()
            if x < 0.3:
                o.pop(k)
            elif x < 0.5 and isinstance(o[k], list) and o[k] and isinstance(o[k][0], dict):
                if q.random() < 0.5:
                    del o[k][q.randrange(len(o[k]))]
                else:
                    o[k].reverse()
            elif x < 0.6:
                mappyfile.update(o, {k: "__delete__"})
            elif x < 0.8 and o["__type__"] not in vocab.KV_BLOCKS:
                o["name"] = "edited"
            elif o["__type__"] not in vocab.KV_BLOCKS:
                o["zz_new"] = 5
    mon.count("edited")
    run(mon, rng, None, text, None, source, "edited", pair[0], pair[1])


def included(mon, rng, n):
    """comments of included files are comments of the source"""
    base = os.path.join(common.scratch(), f"c14-{os.getpid()}-{n}")
    os.makedirs(base)
    for k in range(3):
        g = gen.Gen(rng, "valid", maxdepth=3, avoid_quote="'\"", kw_p=0.2)
        com = Commenter(rng)
        items = [g.block("map")]
        text, marks = write_lines(items, rng, com, density=0.8)
        lines = text.split("\n")
        a = rng.randrange(len(lines))
        b = rng.randint(a + 1, len(lines))
        try:
            safe = "\n" not in "".join(s for s in common.strings_of(common.loads(text))) and "/*" not in text.replace(" */", "*/").split("\n")[a]
        except common.LARK_ERRORS as e:
            mon.violation("refused", f"{common.where(e)}\n{text}")
            continue
        inner = "\n".join(lines[a:b])
        if not safe or inner.count("/*") != inner.count("*/") or re.search(r"/\*[^*]*\n", text):
            continue
        top = "\n".join(lines[:a] + ['INCLUDE "part.map"'] + lines[b:])
        for name, t in (("part.map", inner), ("top.map", top)):
            with open(os.path.join(base, name), "w", encoding="utf-8", newline="") as f:
                f.write(t)
        kept = mappyfile.open(os.path.join(base, "top.map"), include_comments=True)
        mon.count("included")
        run(mon, rng, items, text, marks, com.all, "included", kept)


def history(mon, rng):
    """one parser for several texts, some of which fail half way: no comment of one turns up in another"""
    from mappyfile.parser import Parser
    from mappyfile.transformer import MapfileToDict

    p = Parser(expand_includes=False, include_comments=True)
    m = MapfileToDict(include_comments=True)
    for n in range(8):
        g = gen.Gen(rng, "valid", maxdepth=3, avoid_quote="'\"", kw_p=0.2)
        com = Commenter(rng, f"t{n}x")
        items = g.document()
        text, marks = write_lines(items, rng, com, density=0.8, wild=0.1)
        if rng.random() < 0.4:
            cut = rng.randrange(len(text))
            try:
                m.transform(p.parse(text[:cut]))
            except common.LARK_ERRORS:
                mon.count("failed_before")
        try:
            kept = m.transform(p.parse(text))
        except common.LARK_ERRORS as e:
            mon.violation("refused", f"{common.where(e)}\n{text}")
            return
        run(mon, rng, items, text, marks, com.all, "history", kept)
        mon.count("histories")
