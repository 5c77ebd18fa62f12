"""
Document trees (our own representation of Mapfiles), random generation from the
vocabulary, rendering with random surface syntax, and the dictionary the
documentation promises for a document.  No mappyfile code is used.
"""
import re

from . import expr, vocab

# --------------------------------------------------------------------- values


class Exp:
    """an expected expression: compared by structure"""

    __slots__ = ("ast",)

    def __init__(self, ast):
        self.ast = ast

    def __repr__(self):
        return f"Exp({self.ast})"

    def match(self, v):
        if type(v) is not str or not (v.startswith("(") and v.endswith(")")):
            return False
        try:
            return expr.parse(v) == self.ast
        except expr.ExprError:
            return False


class Val:
    """
    kind: word str bare int float bool nums hex hexrange bind bindpair mixed expr
          regex istr list path rtvar
    data: kind specific
    """

    __slots__ = ("kind", "data")

    def __init__(self, kind, data):
        self.kind, self.data = kind, data

    def __repr__(self):
        return f"Val({self.kind},{self.data!r})"

    def expected(self):
        k, d = self.kind, self.data
        if k in ("word", "bare", "path", "rtvar", "regex", "istr", "list", "bind"):
            return d
        if k == "str":
            return d.lower() if HEX.fullmatch(d) else d
        if k == "hex":
            return d.lower()
        if k == "int":
            return int(d)
        if k == "float":
            return float(d)
        if k == "bool":
            return d.upper() == "TRUE"
        if k == "nums":
            return [num(x) for x in d]
        if k == "hexrange":
            return [x.lower() for x in d]
        if k in ("bindpair", "mixed"):
            return [x if x.startswith("[") else num(x) for x in d]
        if k == "expr":
            return Exp(expr.canon(d))
        raise ValueError(k)

    def tokens(self, st):
        """source tokens of the value"""
        k, d = self.kind, self.data
        if k in ("word",):
            return [st.word(d)]
        if k == "bool":
            return [st.case(d)]
        if k in ("bare", "path", "rtvar", "regex", "istr", "int", "float"):
            return [d]
        if k == "list":
            return [d]
        if k == "bind":
            return [st.bind(d)]
        if k == "str":
            return [st.quote(d)]
        if k == "hex":
            return [st.quote(d)]
        if k in ("nums",):
            return list(d)
        if k == "hexrange":
            return [st.quote(x) for x in d]
        if k in ("bindpair", "mixed"):
            return [st.bind(x) if x.startswith("[") else x for x in d]
        if k == "expr":
            return ["(" + expr.text(d, st.rng if st.exprs else None) + ")"]
        raise ValueError(k)


HEX = re.compile(r"#(?:[0-9a-fA-F]{3}){1,2}(?:[0-9a-fA-F]{2})?")


def num(s):
    return int(s) if re.fullmatch(r"[-+]?[0-9]+", s) else float(s)


# ---------------------------------------------------------------------- items


class Block:
    __slots__ = ("type", "items")

    def __init__(self, type_, items):
        self.type, self.items = type_, items

    def __repr__(self):
        return f"Block({self.type},{self.items})"


class Attr:
    __slots__ = ("kw", "val")

    def __init__(self, kw, val):
        self.kw, self.val = kw, val

    def __repr__(self):
        return f"Attr({self.kw},{self.val})"


class KV:
    """METADATA, VALIDATION, VALUES, CONNECTIONOPTIONS; pairs of Val (str/bare)"""

    __slots__ = ("kw", "pairs")

    def __init__(self, kw, pairs):
        self.kw, self.pairs = kw, pairs

    def __repr__(self):
        return f"KV({self.kw},{self.pairs})"


class Config:
    __slots__ = ("key", "val")
    kw = "config"

    def __init__(self, key, val):
        self.key, self.val = key, val

    def __repr__(self):
        return f"Config({self.key},{self.val})"


class Proj:
    __slots__ = ("vals",)
    kw = "projection"

    def __init__(self, vals):
        self.vals = vals  # list of Val(str) or the word AUTO

    def __repr__(self):
        return f"Proj({self.vals})"


class Pairs:
    """POINTS or PATTERN"""

    __slots__ = ("kw", "pairs")

    def __init__(self, kw, pairs):
        self.kw, self.pairs = kw, pairs

    def __repr__(self):
        return f"Pairs({self.kw},{self.pairs})"


def walk(items):
    for it in items:
        yield it
        if isinstance(it, Block):
            yield from walk(it.items)


def count(items):
    return sum(1 for _ in walk(items))


# ---------------------------------------------------------------------- model


def model_block(b):
    d = {"__type__": b.type}
    for it in b.items:
        if isinstance(it, Block):
            if it.type in vocab.SINGLETONS:
                _set(d, it.type, model_block(it))
            else:
                d.setdefault(vocab.PLURALS[it.type], []).append(model_block(it))
        elif isinstance(it, KV):
            _set(d, it.kw, model_kv(it))
        elif isinstance(it, Config):
            d.setdefault("config", {})
            _set(d["config"], it.key.data.lower(), it.val.data)
        elif isinstance(it, Proj):
            d["projection"] = model_proj(it)
        elif isinstance(it, Pairs):
            pts = [tuple(num(x) for x in p) for p in it.pairs]
            if it.kw == "pattern":
                d["pattern"] = pts
            elif "points" not in d:
                d["points"] = pts
            else:
                ex = d["points"]
                if not ex or not isinstance(ex[0], list):
                    d["points"] = [ex]
                d["points"].append(pts)
        elif it.kw in vocab.REPEATED:
            d.setdefault(it.kw, []).append(it.val.expected())
        else:
            d[it.kw] = it.val.expected()
    return d


def _set(d, k, v):
    d[k] = v


def model_kv(it):
    d = {}
    for k, v in it.pairs:
        d[k.data.lower()] = v.data
    d["__type__"] = it.kw
    return d


def model_proj(it):
    if isinstance(it.vals, str):
        return [it.vals]
    return [v.data for v in it.vals]


def model(items):
    out = []
    for it in items:
        out.append(model_block(it) if isinstance(it, Block) else model_kv(it))
    return out[0] if len(out) == 1 else out


# ------------------------------------------------------------------- compare


def is_hidden(k):
    return isinstance(k, str) and k.startswith("__") and k.endswith("__")


def same(exp, act, path="", typekey_free=False):
    """
    None when equal, else a description.  Strict about types (True is not 1,
    1 is not 1.0), key order and key sets.
    """
    if isinstance(exp, Exp):
        if exp.match(act):
            return None
        return f"{path}: expression {exp.ast} is {act!r}"
    if isinstance(exp, dict):
        if not isinstance(act, dict):
            return f"{path}: expected an object, got {act!r}"
        ek, ak = list(exp), list(act)
        if ek != ak:
            # the position of __type__ in key-value blocks is not significant
            if [k for k in ek if k != "__type__"] != [k for k in ak if k != "__type__"] \
                    or set(ek) != set(ak):
                return f"{path}: keys {ek} became {ak}"
        for k in ek:
            r = same(exp[k], act[k], f"{path}/{k}")
            if r:
                return r
        return None
    if isinstance(exp, (list, tuple)):
        if not isinstance(act, (list, tuple)):
            return f"{path}: expected a list {exp!r}, got {act!r}"
        if len(exp) != len(act):
            return f"{path}: {len(exp)} items became {len(act)}: {exp!r} {act!r}"
        for i, (a, b) in enumerate(zip(exp, act)):
            r = same(a, b, f"{path}[{i}]")
            if r:
                return r
        return None
    if type(exp) is not type(act):
        return f"{path}: {exp!r} became {act!r} ({type(act).__name__})"
    if exp != act and not (exp != exp and act != act):
        return f"{path}: {exp!r} became {act!r}"
    return None


def plain(d):
    """a deep copy in plain dicts and lists (tuples kept)"""
    if isinstance(d, dict):
        return {k: plain(v) for k, v in d.items()}
    if isinstance(d, list):
        return [plain(v) for v in d]
    if isinstance(d, tuple):
        return tuple(plain(v) for v in d)
    return d


def strip(d):
    """plain copy without hidden keys other than __type__"""
    if isinstance(d, dict):
        return {k: strip(v) for k, v in d.items() if k not in ("__position__", "__comments__")}
    if isinstance(d, list):
        return [strip(v) for v in d]
    return d


# ------------------------------------------------------------------ rendering


class Style:
    """surface syntax choices"""

    def __init__(self, rng, case="random", seps="random", quotes="random",
                 comments=False, layout=None, exprs=True, bare_words=False, newline="\n",
                 ccomments=True, word_case=False):
        self.rng = rng
        self.casing = case
        self.seps = seps
        self.quotes = quotes
        self.comments = comments
        self.exprs = exprs
        self.newline = newline
        self.ccomments = ccomments
        self.word_case = word_case
        self.made_comments = []

    def case(self, kw):
        c = self.casing
        if c == "random":
            c = self.rng.choice(["upper", "upper", "lower", "title", "mixed"])
        if c == "upper":
            return kw.upper()
        if c == "lower":
            return kw.lower()
        if c == "title":
            return kw.title()
        return "".join(self.rng.choice([x.upper(), x.lower()]) for x in kw)

    def word(self, w):
        return self.case(w) if self.word_case else w

    def bind(self, d):
        return d

    def quote(self, s):
        """quote a string with a character that can hold it"""
        opts = []
        if _can_quote(s, '"'):
            opts.append('"')
        if _can_quote(s, "'"):
            opts.append("'")
        assert opts, s
        if self.quotes == "random":
            q = self.rng.choice(opts)
        else:
            q = self.quotes if self.quotes in opts else opts[0]
        return q + s + q

    COMMENT_WORDS = ["x", "layer", "END", "NAME \"a\"", "it's", "é中", "1 2 3", "#", "{", "(", "",
                     "*", "\\", "/", "'", '"', "[a", "MAP", "a\tb", "style # two", "%x%", "`"]

    def comment_text(self):
        n = self.rng.randint(0, 3)
        return " ".join(self.rng.choice(self.COMMENT_WORDS) for _ in range(n))

    def comment(self):
        r = self.rng
        if r.random() < 0.6 or not self.ccomments:
            s = "#" + r.choice(["", " ", "# "]) + self.comment_text()
            s = s.rstrip()
            self.made_comments.append(s)
            return s + r.choice(["\n", "\n", "\r\n"])
        t = self.comment_text().replace("*/", "")
        if r.random() < 0.3:
            t += "\n" + r.choice(["more", "", " # not a comment", "END"])
        t = t.replace("*/", "").strip("/")
        s = "/*" + r.choice(["", " "]) + t + " */"
        self.made_comments.append(s)
        return s

    WS = [" ", " ", " ", "  ", "\t", "\f", "\n", "\n", "\r\n", "\n\n", " \n ", "\r\n\r\n", "    "]

    def sep(self, inside=False):
        r = self.rng
        if self.seps == "line":
            return self.newline
        if self.seps == "space":
            return " "
        s = "".join(r.choice(self.WS) for _ in range(r.choice([1, 1, 1, 2])))
        if self.comments and r.random() < 0.15:
            # a comment is always surrounded by white space
            s += self.comment() + r.choice(self.WS)
        return s


def _can_quote(s, q):
    """an unescaped q, or an odd trailing backslash, cannot be held in q quotes"""
    i = 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s) and s[i + 1] == q:
            i += 2
            continue
        if s[i] == q:
            return False
        i += 1
    return not s.endswith("\\")


class Rendered:
    __slots__ = ("text", "pos")

    def __init__(self, text, pos):
        self.text = text
        self.pos = pos  # list of (kind, object, offset...) in order


class Writer:
    """token writer recording offsets"""

    def __init__(self, st):
        self.st = st
        self.parts = []
        self.n = 0
        self.marks = []  # (item, role, offset)

    def raw(self, s):
        self.parts.append(s)
        self.n += len(s)

    def tok(self, s, item=None, role=None):
        if self.n and not self.parts[-1][-1:].isspace():
            self.raw(self.st.sep())
        if item is not None:
            self.marks.append((item, role, self.n))
        self.raw(s)

    def items(self, items):
        for it in items:
            self.item(it)

    def item(self, it):
        st = self.st
        if isinstance(it, Block):
            self.tok(st.case(it.type), it, "kw")
            self.items(it.items)
            self.tok(st.case("end"), it, "end")
        elif isinstance(it, KV):
            self.tok(st.case(it.kw), it, "kw")
            for k, v in it.pairs:
                for x in (k, v):
                    self.tok(x.tokens(st)[0], it, "value")
            self.tok(st.case("end"), it, "end")
        elif isinstance(it, Config):
            self.tok(st.case("config"), it, "kw")
            self.tok(it.key.tokens(st)[0], it, "value")
            self.tok(it.val.tokens(st)[0], it, "value")
        elif isinstance(it, Proj):
            self.tok(st.case("projection"), it, "kw")
            if isinstance(it.vals, str):
                self.tok(st.word(it.vals), it, "value")
            else:
                for v in it.vals:
                    self.tok(v.tokens(st)[0], it, "value")
            self.tok(st.case("end"), it, "end")
        elif isinstance(it, Pairs):
            self.tok(st.case(it.kw), it, "kw")
            for p in it.pairs:
                for x in p:
                    self.tok(x, it, "value")
            self.tok(st.case("end"), it, "end")
        else:
            self.tok(st.case(it.kw), it, "kw")
            for t in it.val.tokens(st):
                self.tok(t, it, "value")


def linecol(text, offsets):
    """1-based (line, column) for ascending offsets"""
    out = []
    line, start, at = 1, 0, 0
    for o in offsets:
        while True:
            i = text.find("\n", at, o)
            if i < 0:
                break
            line += 1
            start = at = i + 1
        out.append((line, o - start + 1))
    return out


def render(items, st, lead=""):
    w = Writer(st)
    if lead:
        w.raw(lead)
    w.items(items)
    text = "".join(w.parts)
    lc = linecol(text, [m[2] for m in w.marks])
    return Rendered(text, [(m[0], m[1], p) for m, p in zip(w.marks, lc)])


def render_lines(items, indent=2, case="upper", quotes='"', newline="\n", rng=None,
                 comment=None):
    """one keyword per line; returns (text, [(item, role, line number)])"""
    import random

    st = Style(rng or random.Random(0), case=case, quotes=quotes, seps="space", exprs=False)
    lines = []
    marks = []

    def add(level, s, it, role):
        lines.append(" " * (indent * level) + s)
        marks.append((it, role, len(lines)))

    def go(its, level):
        for it in its:
            if isinstance(it, Block):
                add(level, st.case(it.type), it, "open")
                go(it.items, level + 1)
                add(level, st.case("end"), it, "end")
            elif isinstance(it, KV):
                add(level, st.case(it.kw), it, "open")
                for k, v in it.pairs:
                    add(level + 1, k.tokens(st)[0] + " " + v.tokens(st)[0], it, "pair")
                add(level, st.case("end"), it, "end")
            elif isinstance(it, Config):
                add(level, " ".join([st.case("config"), it.key.tokens(st)[0], it.val.tokens(st)[0]]), it, "config")
            elif isinstance(it, Proj):
                add(level, st.case("projection"), it, "open")
                if isinstance(it.vals, str):
                    add(level + 1, it.vals, it, "value")
                else:
                    for v in it.vals:
                        add(level + 1, v.tokens(st)[0], it, "value")
                add(level, st.case("end"), it, "end")
            elif isinstance(it, Pairs):
                add(level, st.case(it.kw), it, "open")
                for p in it.pairs:
                    add(level + 1, " ".join(p), it, "value")
                add(level, st.case("end"), it, "end")
            else:
                add(level, " ".join([st.case(it.kw)] + it.val.tokens(st)), it, "attr")

    go(items, 0)
    return lines, marks
