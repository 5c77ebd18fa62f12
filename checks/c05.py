"""C05: surface syntax does not change meaning"""

from __future__ import annotations

from mfv import common, doc, expr, gen, matrix, mutate, reader, vocab
from mfv.doc import Attr, Block, Config, KV, Proj, Val

PROPERTY = "C05"
LEVEL = "exploration"
RULE = (
    "cases are pairs of texts that differ in surface syntax only: one document of our own written in upper case, one keyword "
    "per line, double quotes, LF, without comments, and written again with random keyword case, separators (blanks, tabs, "
    "form feeds, LF, CRLF, none next to quotes and brackets), # and /* */ comments before, between and after all tokens, "
    "quote characters, bare words, spacing and operator case inside expressions; and files of the repository rewritten in "
    "the same ways token by token. The two dictionaries must be strictly equal, key order and types included. Non-trivial: at "
    "least one keyword; counted by the rewritten text."
)
ASSUMPTIONS = [
    "a word can be left bare when it is no block name, END, TRUE, FALSE, NULL or NOT, has letters, digits, _ - : only and does "
    "not name something else in its place (a member of the keyword's enumeration, a STYLE or SYMBOL block)",
    "without white space only where a quote or bracket separates the tokens",
]


def start(tier):
    global DOCS
    common.corpus()
    DOCS = list(matrix.documents())


def setup(tier):
    common.fast_lark()
    start(tier)


def plan(tier):
    big = tier == "thorough"
    return [
        ("matrix", 145, 5),
        ("corpus", len(common.corpus()), 8),
        ("random", 16000 if big else 3600, 10),
        ("case", 100 if big else 100, 2),
        ("words", 100 if big else 100, 2),
        ("gaps", 200 if big else 160, 2),
    ]


def REQUIRED(tier):
    return {"evaluations": 15000, "corpus_variants": 500, "comments": 30000, "glued": 5000, "bared": 2000,
            "quotes_swapped": 500, "crlf": 5000}


# ------------------------------------------------------------------------------------------------ the writer
class Style(doc.Style):
    def __init__(self, rng, mon, density):
        super().__init__(rng, comments=True, exprs=False)
        self.mon = mon
        self.density = density

    def gap(self, a, b):
        """what stands between two tokens (a or b is empty at the ends)"""
        r = self.rng
        glue = (not a or not b or a[-1] in "\"'`)]}" or b[0] in "\"'`([{") and not (a[-1:] == "i" or b[:1] == "i" or
                                                                                 (a and b and a[-1] == b[0]))
        if a[-1:] in "\"'" and b[:1] in ("i", "I"):
            glue = False
        out = ""
        if r.random() >= self.density:
            if glue and r.random() < 0.3:
                self.mon.count("glued")
                return ""
            return self.ws()
        if not glue or r.random() < 0.6:
            out = self.ws()
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            before = out or a
            c = self.comment()
            self.mon.count("comments")
            if c.startswith("/") and not out and not (a == "" or a[-1] in "\"')]}"):
                out += self.ws()
            out += c
            if r.random() < 0.5:
                out += self.ws()
        if not out[-1:].isspace() and not out.endswith("*/") and b:
            out += "\n"
        if out.endswith("*/") and not glue:
            out += self.ws()
        return out

    def ws(self):
        r = self.rng
        s = "".join(r.choice(self.WS) for _ in range(r.choice([1, 1, 1, 2, 3])))
        if "\r\n" in s:
            self.mon.count("crlf")
        return s


class Writer(doc.Writer):
    def __init__(self, st):
        super().__init__(st)
        self.last = ""

    def tok(self, s, item=None, role=None):
        self.raw(self.st.gap(self.last, s))
        self.raw(s)
        self.last = s


def write(items, st):
    w = Writer(st)
    w.items(items)
    w.raw(st.gap(w.last, ""))
    s = "".join(w.parts)
    if st.rng.random() < 0.3:
        s = s.rstrip("\r\n") if not s.endswith("\n") or "#" in s.splitlines()[-1] else s
    return s


def plainly(items):
    st = doc.Style(None, case="upper", seps="line", quotes='"', exprs=False)
    return doc.render(items, st).text


# ------------------------------------------------------------------------------------------ rewriting the IR
def vary_value(v, slot, rng, mon):
    if v.kind == "str" and rng.random() < 0.5 and gen.bare_ok(v.data, slot):
        mon.count("bared")
        return Val("bare", v.data)
    if v.kind == "bare" and rng.random() < 0.7:
        mon.count("bared")
        return Val("str", v.data)
    if v.kind == "word" and rng.random() < 0.3 and v.data.lower() not in ("true", "false"):
        mon.count("words_quoted")
        return Val("str", v.data)
    if v.kind == "expr":
        return Val("rtvar", vary_expr("(" + expr.text(v.data, None) + ")", rng))
    return v


def vary_expr(s, rng):
    """other spacing and operator case, same tokens"""
    out, touch = [], []
    toks = expr.tokens(s)
    ends = [t[2] for t in toks[1:]] + [len(s)]
    for (k, txt, at), end in zip(toks, ends):
        raw = s[at:end].rstrip()
        if k == "op" and raw.isalpha():
            raw = rng.choice([raw.upper(), raw.lower(), raw.title()])
        out.append(raw)
        touch.append(at + len(raw) == end)
    res = out[0]
    for a, b, t in zip(out, out[1:], touch):
        if a == "-" and t:
            res += b  # -f(1) is read as the function -f
            continue
        tight = a in "(" or b in ")" or a[-1] in "\"'])" and b[0] in "=<>!)(" or b[0] in "\"'[" and a[-1] in "=<>("
        tight = tight and not (a[-1] in "\"'" and b[0] in "iI")
        res += (rng.choice(["", "", " ", "  ", "\n", "\t"]) if tight else rng.choice([" ", " ", "  ", "\n", "\t", " \r\n "])) + b
    return res


def vary(items, rng, mon):
    out = []
    for it in items:
        if isinstance(it, Block):
            slots = vocab.SLOTS[it.type]
            new = []
            for x in vary(it.items, rng, mon):
                if isinstance(x, Attr):
                    x = Attr(x.kw, vary_value(x.val, slots.get(x.kw), rng, mon))
                new.append(x)
            out.append(Block(it.type, new))
        elif isinstance(it, KV):
            out.append(KV(it.kw, [(vary_value(k, None, rng, mon), vary_value(v, None, rng, mon)) for k, v in it.pairs]))
        elif isinstance(it, Config):
            out.append(Config(vary_value(it.key, None, rng, mon), vary_value(it.val, None, rng, mon)))
        else:
            out.append(it)
    return out


def compare(mon, d0, text0, text1, label):
    mon.case(text1, len(text0) > 12)
    d1, e = common.try_loads(text1)
    if e is not None:
        mon.violation("rejected", f"{label}: {common.where(e)}\n--- read\n{text0}\n--- rejected\n{text1}")
        return
    r = doc.same(doc.plain(d0), d1)
    if r:
        mon.violation("changed", f"{label}: {r}\n--- first text\n{text0}\n--- second text\n{text1}")


def base(mon, items, label):
    t0 = plainly(items)
    d0, e = common.try_loads(t0)
    if e is not None:
        mon.violation("rejected", f"{label}: {common.where(e)}\n{t0}")
    return t0, d0


def variants(mon, rng, items, n, label):
    t0, d0 = base(mon, items, label)
    if d0 is None:
        return
    for _ in range(n):
        st = Style(rng, mon, rng.choice([0, 0.1, 0.3, 0.9]))
        t1 = write(vary(items, rng, mon), st)
        compare(mon, d0, t0, t1, label)
    return t1


# ------------------------------------------------------------------------------------------------ the corpus
KEYWORDS = {k for t in vocab.SLOTS.values() for k in t} | set(vocab.ROOT_TYPES) | set(vocab.KV_BLOCKS) | {"end"}


def rewrite(text, rng, mon, toks):
    st = Style(rng, mon, rng.choice([0, 0.1, 0.3]))
    parts = []
    last = ""
    line = None
    for t in toks:
        s = text[t.start:t.end]
        if t.cls == "str":
            q = s[0]
            if "'" not in t.text and '"' not in t.text and rng.random() < 0.5 and not t.text.endswith("\\"):
                mon.count("quotes_swapped")
                s = ("'" if q == '"' else '"') + t.text + ("'" if q == '"' else '"')
        elif t.cls == "word" and t.line != line and s.lower() in KEYWORDS:
            s = st.case(s)
            mon.count("case_changed")
        line = t.line
        parts += [st.gap(last, s), s]
        last = s
    parts.append(st.gap(last, ""))
    return "".join(parts)


def corpus_file(mon, rng, i):
    fn, text = common.corpus()[i]
    d, e = common.try_loads(text)
    if e is not None or not d:
        return
    try:
        toks, _ = reader.tokenize(text)
    except reader.ReadError:
        toks = None
        mon.count("corpus_unread")
    for other in (text.replace("\r\n", "\n").replace("\n", "\r\n"), text.replace("\r\n", "\n")):
        if not any("\n" in s for s in common.strings_of(d)):
            compare(mon, d, text, other, fn)
            mon.count("crlf")
    if toks is None or any(t.cls == "word" and ("#" in t.text or "/*" in t.text) for t in toks):
        return
    for _ in range(4):
        mon.count("corpus_variants")
        compare(mon, d, text, rewrite(text, rng, mon, toks), fn)


# ---------------------------------------------------------------------------------------- exhaustive parts
def cases(mon, rng, i):
    """every keyword of every type in upper, lower, title and mixed case"""
    for t in vocab.TYPES:
        for n, (kw, s) in enumerate(vocab.SLOTS[t].items()):
            if n % 30 != i % 30 and rng.random() > 0.2:
                continue
            items = [Block(t, [matrix.alternatives(s)[0], Attr("zzz", Val("str", "q"))])]
            t0, d0 = base(mon, items, f"{t}.{kw}")
            if d0 is None:
                continue
            for c in ("upper", "lower", "title", "mixed"):
                st = doc.Style(rng, case=c, seps="space", quotes=rng.choice("\"'"), exprs=False)
                compare(mon, d0, t0, doc.render(items, st).text, f"{t}.{kw} {c}")


def words(mon, rng, i):
    """every keyword that takes a free string x bare words, next to every kind of neighbour"""
    slots = [s for t in vocab.SLOTS.values() for s in t.values() if s.cat == "simple" and s.free_string and
             any(a.kind == "string" for a in s.alts)]
    for n, s in enumerate(slots):
        if n % 30 != i % 30 and rng.random() > 0.1:
            continue
        for w in rng.sample(gen.WORDS, 8):
            if not gen.bare_ok(w, s):
                continue
            for after in (None, "name", "color", "size", "processing"):
                for q in ("str", "bare"):
                    its = [Attr(s.kw, Val(q, w))]
                    if after == "name" and s.kw != "name":
                        its.append(Attr("name", Val("bare", "zz")))
                    elif after == "color":
                        its.append(Attr("color", Val("nums", ["1", "2", "3"])))
                    elif after == "size":
                        its.append(Attr("size", Val("int", "4")))
                    elif after == "processing":
                        its.append(Attr("processing", Val("str", "a=b")))
                    items = [Block(s.type, its)]
                    if q == "str":
                        t0, d0 = base(mon, items, f"{s.type}.{s.kw} {w}")
                    elif d0 is not None:
                        mon.count("bared")
                        compare(mon, d0, t0, plainly(items), f"{s.type}.{s.kw} {w} bare")


def gaps(mon, rng, i):
    """one document, every gap in turn filled with every kind of separator"""
    g = gen.Gen(rng, rng.choice(["valid", "loose"]), maxdepth=2, kw_p=0.12, multiline=False, bare=False)
    g.maxblocks = 5
    items = g.document(rng.choice(vocab.TYPES))
    t0, d0 = base(mon, items, "gaps")
    if d0 is None:
        return
    w = doc.Writer(doc.Style(None, case="upper", seps="line", quotes='"', exprs=False))
    toks = []
    w.tok = lambda s, item=None, role=None: toks.append(s)
    w.items(items)
    if len(toks) > 120:
        return
    FILLS = [" ", "\t", "\f", "\r\n", "\n\n\n", " # c\n", "\n#c\r\n", " /* c */ ", "\n/* a\nb\r\n END */\n", " #\n", " /**/ ",
             " # 'a \"b\n", " /* 'x # */ ", "\n# NAME \"x\"\n\n", "\r\n  # END\r\n/* LAYER */\r\n"]
    for n in range(len(toks) + 1):
        for f in rng.sample(FILLS, 5):
            mon.count("comments", "c" in f)
            text = "\n".join(toks[:n]) + f + "\n".join(toks[n:])
            compare(mon, d0, t0, text, f"gap {n} {f!r}")


def unit(job, i, rng, mon):
    if job == "matrix":
        for label, items, slot, it in DOCS[i * 10:i * 10 + 10]:
            variants(mon, rng, items, 3, label)
    elif job == "corpus":
        corpus_file(mon, rng, i)
    elif job == "random":
        for k in range(4):
            g = gen.Gen(rng, rng.choice(["valid", "loose"]), multiline=False, escapes=rng.random() < 0.2,
                        includes=rng.random() < 0.2)
            t = variants(mon, rng, g.document(), 3, job)
            if k == 0 and t:
                mon.sample(t)
    elif job == "case":
        cases(mon, rng, i)
    elif job == "words":
        words(mon, rng, i)
    elif job == "gaps":
        gaps(mon, rng, i)
