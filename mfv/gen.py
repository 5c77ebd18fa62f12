"""
Random documents from the vocabulary (vocab) as doc IR.

mode "valid": every value conforms to the frozen schema (and required keywords are
present), so validate() must be silent.  mode "loose": also admissible shapes the
schema does not list (strings for numbers, words that are no enum member, ...), for
the properties that do not depend on the schema's verdict.
"""
import copy

from . import expr, vocab
from .doc import Attr, Block, Config, HEX, KV, Pairs, Proj, Val

WORDS = ["alpha", "Beta", "roads", "layer1", "x", "test_group", "a-b", "ns:item", "Été",
         "ending", "mapper", "trueish", "classy", "nothing", "order", "android", "inlet",
         "auto_x", "nullable", "w" * 40, "_u", "Name", "type", "geq", "styles", "includes"]
# words which need quotes, or which only look like something else
STRINGS = [
    "", " ", "two words", "  padded  ", "123", "1.5", "-7", "true", "FALSE", "END", "end",
    "layer", "MAP", "class", "style", "null", "not", "auto", "on", "a#b", "# not a comment", "/* no */",
    "http://example.com/a?b=1&c=%20", "/usr/local/x.map", "./a/b.txt", "C:\\data\\x.shp", "tab\there",
    "é", "中文", "😀 astral 𝒳", "Ā ſ", "ß", "İstanbul", "a,b", "a;b", "50%", "%x", "100% sure",
    "init=epsg:4326", "+proj=utm +zone=15 +datum=NAD83", "select * from t where a = 1",
    "PG:host=localhost port=5432", "a=b", "x > 1", "back\\slash in", "dot.", "a.b", "'", "it's",
    "O'Brien", "&#38;", "a\u00a0b", "{not a list", "(open", "close)", "[half", "/half", "key=%v%",
    "\u200b", "end # layer", "x" * 120, "\u2028sep", "i", "\\n", "a\\\\b", "``", "`tick`", "#12", "#ggg",
    " on", "OFF ", " point ", "default\t", "true ", " END", "auto ", "line\xa0", "[a] ", " (1)", "/r/ ", "%v% ", " #fff",
    "#ff00", "1e5", "+5", "0x1F", "-", "--", ":", "a:b", "==", "<b>", "NaN", "inf", "None", "include",
]
DQ_STRINGS = ['say "hi"', '"', 'a"b', '"quoted"', "x = \"y\""]
ESC_STRINGS = ['esc \\" one', '\\"', "esc \\' two", "both \\' and \\\"", "a\\'b\\'c", '\\"x\\" and y', "\\'x\\' and \"y\"", "a\"b\\'c"]
MULTILINE = ["two\nlines", "crlf\r\nline", "SELECT *\n  FROM t\n  WHERE a = 'b'", "\n", "a\n\n# b\nEND\nc"]
EXPRLIKE = ["[attr]", "(1 + 2)", "([a] = 1)", "/re/", "/re/i", "{a,b}", "[a] [b]", "NOT [a]", "('x')"]
INTS = ["0", "1", "2", "5", "7", "10", "42", "255", "1000", "65535", "123456789", "-1", "-45", "+3", "007",
        "99999999999999999999"]
FLOATS = ["0.0", "0.5", "1.5", "-0.25", "3.14159", "1e3", "1.5E-7", "-2.5e+10", "100.00", ".5", "2.", "1e22",
          "0.1", "123456789.123456789", "-0.0", "5e-324"]
BINDS = ["[name]", "[POP]", "[a_b]", "[x-y]", "[ns:geom]", "[É]", "[1]", "[field1]"]
REGEXES = ["/abc/", "/^a.*b$/", "/a b/", "/[0-9]+/i", "/x|y/", "/\\d/", "/#/", "/'/", "/./", "/end/i"]
ISTRS = ["'abc'i", "'two words'i", "'É'i", "'x'i"]
LISTS = ["{a,b}", "{1,2,3}", "{road,rail}", "{a b,c}", "{1.50}", "{x}", "{a:b,c-d}", "{007,1}"]
PATHS = ["a/b", "./x.txt", "../data/y.shp", "x.png", "dir/sub/file_1.map", "/abs/p.q", "fonts.list", "/tmp/"]
RTVARS = ["%name%", "%a b%", "%x1%", "%%", "%é%"]
HEXES = ["#fff", "#FFF", "#a1B2c3", "#AABBCC", "#aabbcc80", "#000000", "#AbCdEfFf"]
# the grammar reads them but the schema's pattern does not know them
HEX_LOOSE = ["#12345"]

# what strings are made of when they are not picked from the lists above
FRAGMENTS = ["a", "B", "x1", "é", "Ż", "ß", "中", "😀", "0", "12", "-3", "1.50", "_", "__", " ", "  ", "\t", "\xa0", "#", "##", "# x", "/*", "*/",
             "//", "/", "\\", "\\\\", "\\n", "\\d", "%", "%v%", "(", ")", "[", "]", "[a]", "{", "}", "{a,b}", "`", "^", "$", "|", "&", "&&", "!",
             "=", "==", "<", ">", "~", "*", "+", "-", ",", ";", ":", "::", "?", "@", "END", "end", "Layer", "NAME x", "MAP", "include", "true",
             "null", "AND", "not", "'", "i", "\u2028", "\x85", "ſ", "K", "ı", "İ", "ŉ", "µ", "ÿ", "Ÿ", "ς", "Σ", "\x0b", "\x0c", "\x7f", "\u200b", "\ufeff"]


def odd_string(r, extra=()):
    """a string of one to eight fragments, without a double quote or a backslash at the end"""
    s = "".join(r.choice(FRAGMENTS) for _ in range(r.choice([1, 2, 2, 3, 4, 5, 8])))
    for x in extra:
        s = s.replace(x, "")
    return s.rstrip("\\")


def odd_word(r):
    n = r.choice([1, 2, 3, 5, 9, 20])
    return r.choice("abcdefgnxyzABCDEGXYZ_") + "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789__--:éßÿÀÖ") for _ in range(n))


def odd_float(r):
    m = str(r.randrange(10 ** r.randint(1, 12))) + "." + "".join(r.choice("0123456789") for _ in range(r.randint(1, 17)))
    return r.choice(["", "", "-", "+"]) + m + (r.choice(["e", "E"]) + r.choice(["", "-", "+"]) + str(r.randint(0, 20)) if r.random() < 0.3 else "")


def odd_key(r):
    k = r.choice(["", "_", "__", "___", "a", "wms_", "B", "x y ", "1", "é", "%", "#", ".", "-"]) + r.choice(
        ["a", "K", "key", "straße", "µ", "ſ", "ÿ", "Σς", "ŉ", "İ", "_k", "title_2", "0", "é", "/", "'", "[a]", "\\d", " ", "layers", "name", "type__", "__"]) + r.choice(["", "", "_", "__", ":", " "])
    return k if not (k.startswith("__") and k.endswith("__")) and k.lower() != "include" else "k"


EXPR_KWS = None


class Gen:
    def __init__(self, rng, mode="valid", multiline=False, dq=True, escapes=False, maxdepth=5,
                 includes=False, exprlike=False, big=False, bare=True, kw_p=0.3, avoid_quote=None):
        self.rng = rng
        self.mode = mode
        self.multiline = multiline
        self.dq = dq
        self.escapes = escapes
        self.includes = includes
        self.exprlike = exprlike
        self.maxdepth = maxdepth
        self.bare = bare
        self.kw_p = kw_p
        self.avoid_quote = avoid_quote  # a character that must not occur in strings
        self.serial = 0
        self.nblocks = 0
        self.maxblocks = 60 if not big else 600
        self.version = None
        # numbers that are equal and not the same, over and over
        self.tight = rng.random() < 0.12

    # ------------------------------------------------------------ primitives
    def string(self, slot=None, unique=False):
        r = self.rng
        while True:
            x = r.random()
            if x < 0.25:
                s = r.choice(WORDS)
            elif x < 0.4:
                s = odd_string(r) if x < 0.37 else odd_word(r)
            elif x < 0.85:
                s = r.choice(STRINGS)
            elif x < 0.9 and self.dq:
                s = r.choice(DQ_STRINGS)
            elif x < 0.93 and self.escapes:
                s = r.choice(ESC_STRINGS)
            elif x < 0.96 and self.multiline:
                s = r.choice(MULTILINE)
            elif x < 0.97 and self.exprlike:
                s = r.choice(EXPRLIKE)
            else:
                self.serial += 1
                s = f"{r.choice(WORDS)} {self.serial}"
            if slot is not None and self.avoid_quote and any(c in s for c in self.avoid_quote):
                continue
            if '"' in s and "'" in s and not self.escapes:
                continue
            if s.lower() == "include":
                continue
            if HEX.fullmatch(s):
                continue
            if slot is not None and not slot.plain_string and looks_special(s):
                continue
            return s

    def strval(self, slot=None):
        s = self.string(slot)
        r = self.rng
        if self.bare and r.random() < 0.15:
            w = r.choice(WORDS) if r.random() < 0.7 else odd_word(r)
            if bare_ok(w, slot):
                return Val("bare", w)
        return Val("str", s)

    def integer(self, lo=None, hi=None):
        r = self.rng
        for _ in range(20):
            s = r.choice(["0", "1", "-1", "2"]) if self.tight else r.choice(INTS) if r.random() < 0.7 else r.choice(["", "", "-", "+"]) + str(r.randrange(10 ** r.randint(1, 19)))
            if (lo is None or int(s) >= lo) and (hi is None or int(s) <= hi):
                return s
        a = lo if lo is not None else -1000
        b = hi if hi is not None else a + 1000
        a, b = int(a) + (0 if a == int(a) else 1), int(b)
        return str(r.choice([a, b, r.randint(a, b)]))

    def floatnum(self, lo=None, hi=None):
        r = self.rng
        for _ in range(20):
            s = r.choice(["0.0", "1.0", "-0.0", "-1.0", "2.0"]) if self.tight else r.choice(FLOATS) if r.random() < 0.7 else odd_float(r)
            if (lo is None or float(s) >= lo) and (hi is None or float(s) <= hi):
                return s
        return repr(float(self.integer(lo, hi)))

    def number(self, lo=None, hi=None):
        return self.integer(lo, hi) if self.rng.random() < 0.6 else self.floatnum(lo, hi)

    # --------------------------------------------------------------- values
    def alt_value(self, slot, alt):
        """a Val for one alternative of a simple keyword (None: cannot be written)"""
        r = self.rng
        s = alt.schema
        k = alt.kind
        lims = {}
        for e in alt.extra + (s,):
            for x in ("minimum", "maximum"):
                if x in e:
                    lims[x] = e[x] if x not in lims else (max if x == "minimum" else min)(lims[x], e[x])
        lo, hi = lims.get("minimum"), lims.get("maximum")
        if k == "enum":
            v = r.choice(s["enum"])
            if isinstance(v, bool):
                return Val("bool", str(v))
            if isinstance(v, int):
                return Val("int", str(v))
            if v == "end" or not plain_word(v):
                return Val("str", v)
            return Val("word", randcase(r, v))
        if k == "string":
            if s.get("maxLength") == 1:
                return Val("str", r.choice(["a", "|", " ", "é", "1", "\\x"[:0] or ";"]))
            return self.strval(slot)
        if k == "pattern":  # ^word$
            return Val("str", s["pattern"].strip("^$"))
        if k == "bind":
            return Val("bind", r.choice(BINDS))
        if k == "expr":
            return Val("expr", expr.boolean(r, r.randint(1, 3)))
        if k == "regex":
            x = r.random()
            if x < 0.7:
                v = r.choice([x for x in REGEXES if not x.endswith("i")] if self.mode == "valid" else REGEXES)
                return Val("regex", v)
            if x < 0.85 and slot.kw != "text":
                return Val("list", r.choice(LISTS))
            return Val("istr", r.choice([x for x in ISTRS]))
        if k == "hex":
            return Val("hex", r.choice(HEXES if self.mode == "valid" else HEXES + HEX_LOOSE))
        if k == "charref":
            return Val("str", r.choice(["&#10140;", "&#1;", "&#65;"]))
        if k == "integer":
            return Val("int", self.integer(lo, hi))
        if k == "number":
            v = self.number(lo, hi)
            return Val("float" if not v.lstrip("+-").isdigit() else "int", v)
        if k == "boolean":
            return Val("bool", r.choice(["TRUE", "FALSE"]))
        if k == "array":
            return self.array_value(slot, s)
        return None

    def array_value(self, slot, s):
        r = self.rng
        n = s.get("minItems", 2)
        items = s.get("items")
        if isinstance(items, list):
            kinds = [x.get("type") for x in items]
            if "string" in kinds:
                return Val("mixed", [self.integer(), r.choice(BINDS)])
            it = items[0]
            return Val("nums", [self.number(it.get("minimum"), it.get("maximum")),
                                self.number(it.get("minimum"), it.get("maximum"))])
        if "oneOf" in items:
            n = 2
            x = r.random()
            if x < 0.3:
                return Val("bindpair", [r.choice(BINDS), r.choice(BINDS)])
            if x < 0.6:
                p = [self.number(), r.choice(BINDS)]
                r.shuffle(p)
                return Val("mixed", p)
            return Val("nums", [self.number(), self.number()])
        t = items.get("type")
        lo, hi = items.get("minimum"), items.get("maximum")
        if t == "string":
            if items.get("pattern", "").startswith("^\\["):
                return Val("bindpair", [r.choice(BINDS), r.choice(BINDS)])
            return Val("hexrange", [r.choice(HEXES), r.choice(HEXES)])
        if t == "number" and n != 3:
            return Val("nums", [self.number(lo, hi) for _ in range(n)])
        # triples and colour ranges are integers in the grammar
        if n == 3:
            return Val("nums", [self.integer(lo, hi) for _ in range(n)])
        return Val("nums", [self.integer(lo, hi) for _ in range(n)])

    def loose_value(self, slot):
        """any shape the grammar reads, whatever the schema says"""
        r = self.rng
        x = r.randint(0, 13)
        if x == 0:
            return Val("int", r.choice(INTS))
        if x == 1:
            return Val("float", r.choice(FLOATS))
        if x == 2:
            return Val("bool", r.choice(["TRUE", "FALSE"]))
        if x == 3:
            n = r.choice([2, 3, 4, 6])
            return Val("nums", [self.integer() if n in (3, 6) else self.number() for _ in range(n)])
        if x == 4:
            return Val("hex", r.choice(HEXES))
        if x == 5:
            return Val("hexrange", [r.choice(HEXES), r.choice(HEXES)])
        if x == 6:
            return Val("bind", r.choice(BINDS))
        if x == 7:
            return Val("bindpair", [r.choice(BINDS), r.choice(BINDS)])
        if x == 8:
            p = [self.number(), r.choice(BINDS)]
            r.shuffle(p)
            return Val("mixed", p)
        if x == 9:
            w = r.choice(WORDS)
            if bare_ok(w, slot):
                return Val("bare", w)
        return Val("str", self.string(slot))

    def attr(self, slot):
        if slot.cat == "repeated":
            return Attr(slot.kw, self.rep_value(slot))
        if self.mode == "loose" and self.rng.random() < 0.3:
            return Attr(slot.kw, self.loose_value(slot))
        alts = [a for a in slot.alts if self.version is None or a.minv <= self.version <= a.maxv]
        for _ in range(5):
            v = self.alt_value(slot, self.rng.choice(alts))
            if v is not None:
                return Attr(slot.kw, v)
        raise AssertionError(slot)

    def rep_value(self, slot):
        r = self.rng
        if slot.kw == "include":
            return Val("str", r.choice(["a.map", "sub/b.map", "x y.map"]))
        if r.random() < 0.5:
            s = r.choice(["BANDS=1", "SCALE=0,255", "CLOSE_CONNECTION=DEFER", "GAMMA=0.75", "blur(10)",
                          "translate(-4,3)"])
            return Val("str", s)
        return Val("str", self.string(None))

    KEYS = ["wms_title", "ows_srs", "Key", "k1", "UPPER_KEY", "a b", "gml_include_items", "é",
            "wms_enable_request", "123", "layer", "end", "a-b", "ns:k", "x.y", "qstring", "default"]

    def kv(self, kw):
        r = self.rng
        pairs = []
        seen = set()
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            k = r.choice(self.KEYS) if r.random() < 0.7 else odd_key(r)
            if k.lower() in seen and r.random() < 0.8:
                continue
            seen.add(k.lower())
            kv = Val("str", k)
            if self.bare and r.random() < 0.2 and bare_ok(k, None):
                kv = Val("bare", k)
            v = self.string(None)
            vv = Val("str", v)
            if self.bare and r.random() < 0.1:
                w = r.choice(WORDS)
                if bare_ok(w, None):
                    vv = Val("bare", w)
            pairs.append((kv, vv))
        return KV(kw, pairs)

    def config(self):
        r = self.rng
        k = r.choice(["MS_ERRORFILE", "PROJ_LIB", "proj_debug", "MS_NONSQUARE", "ON_MISSING_DATA",
                      "CGI_CONTEXT_URL", "Custom"]) if r.random() < 0.75 else odd_key(r)
        if k == "MS_NONSQUARE":
            # the schema spells these in upper case only: any value is accepted by validate
            v = r.choice(["YES", "NO"])
        elif k == "ON_MISSING_DATA":
            v = r.choice(["FAIL", "LOG", "IGNORE"])
        else:
            v = self.string(None)
        kv = Val("bare", k) if r.random() < 0.2 and self.bare and bare_ok(k, None) else Val("str", k)
        return Config(kv, Val("str", v))

    def projection(self):
        r = self.rng
        x = r.random()
        if x < 0.2:
            return Proj(r.choice(["AUTO", "AUTO", "auto", "Auto"]))
        if x < 0.5:
            return Proj([Val("str", "init=epsg:" + str(r.choice([4326, 3857, 27700])))])
        if x < 0.6:
            return Proj([Val("str", r.choice(["AUTO:42001,9001,-100,45", "auto42001", "AUTO ", " auto", "init=auto", "AUTO2", "auto:1", "autos"]))])
        if x < 0.8:
            return Proj([Val("str", s) for s in (self.string(None) for _ in range(r.choice([1, 1, 2, 4]))) if s.lower() != "auto"] or [Val("str", "x=y")])
        return Proj([Val("str", s) for s in
                     r.sample(["proj=utm", "ellps=GRS80", "zone=15", "no_defs", "x y", "datum=NAD83", "units=m"],
                              r.randint(1, 4))])

    def pairs(self, kw, allow_empty=False):
        r = self.rng
        n = r.choice([1, 1, 2, 3, 5, 8])
        if allow_empty and r.random() < 0.05:
            n = 0
        return Pairs(kw, [(self.number(), self.number()) for _ in range(n)])

    # --------------------------------------------------------------- blocks
    def block(self, type_, depth=0):
        """a Block of the type"""
        r = self.rng
        self.nblocks += 1
        items = []
        slots = list(vocab.SLOTS[type_].values())
        x = r.random()
        dense = x < 0.08
        # a few keywords only, any of them
        few = set(r.sample([s.kw for s in slots], min(len(slots), r.randint(1, 4)))) if x > 0.82 else None
        for slot in slots:
            if self.version is not None and not slot.minv <= self.version <= slot.maxv:
                continue
            p = self.kw_p * r.choice([0.3, 1, 1, 1.5])
            if dense:
                p = 0.9
            if few is not None:
                p = 1 if slot.kw in few else 0
            required = slot.kw in vocab.REQUIRED[type_]
            if not required and r.random() > p:
                continue
            items += self.slot_items(slot, depth)
        r.shuffle(items)
        fix_ambiguous(items, type_, r)
        return Block(type_, items)

    def slot_items(self, slot, depth=0):
        r = self.rng
        c = slot.cat
        if c == "simple":
            return [self.attr(slot)]
        if c == "repeated":
            if slot.kw == "include" and not self.includes:
                return []
            return [self.attr(slot) for _ in range(r.choice([1, 1, 2, 3]))]
        if c == "kv":
            return [self.kv(slot.kw)]
        if c == "config":
            return [self.config() for _ in range(r.choice([1, 1, 2, 3]))]
        if c == "projection":
            return [self.projection()]
        if c == "points":
            if slot.type == "feature" and r.random() < 0.35:
                parts = [self.pairs("points") for _ in range(r.randint(2, 4))]
                # parts can be the same, also those of different numbers
                return [copy.deepcopy(r.choice(parts)) if r.random() < 0.2 else p for p in parts]
            return [self.pairs("points", self.mode == "loose" and slot.type != "feature")]
        if c == "pattern":
            return [self.pairs("pattern")]
        if depth >= self.maxdepth or self.nblocks >= self.maxblocks:
            return []
        n = 1
        if c == "list":
            mx = slot.schema.get("maxItems")
            n = 1 if mx == 1 else r.choice([1, 1, 2, 3])
        blocks = [self.block(slot.child, depth + 1) for _ in range(n)]
        return [copy.deepcopy(r.choice(blocks)) if n > 1 and r.random() < 0.15 else b for b in blocks]

    def document(self, type_=None):
        """a list of root items"""
        r = self.rng
        x = r.random()
        if type_:
            return [self.block(type_)]
        if x < 0.45:
            return [self.block("map")]
        if x < 0.85:
            return [self.block(r.choice(vocab.ROOT_TYPES))]
        if x < 0.93:
            t = r.choice(vocab.TYPES)
            return [self.block(t) for _ in range(r.randint(2, 3))]
        if x < 0.96:
            return [self.block(r.choice(vocab.TYPES)) for _ in range(r.randint(2, 3))]
        kw = r.choice(["metadata", "validation", "connectionoptions"])
        return [self.kv(kw)]


def plain_word(v):
    import re

    return bool(re.fullmatch(r"[A-Za-z_][A-Za-z0-9_:\-]*", v))


def randcase(r, v):
    x = r.random()
    if x < 0.4:
        return v.upper()
    if x < 0.7:
        return v.lower()
    return "".join(r.choice([c.upper(), c.lower()]) for c in v)


def looks_special(s):
    """documented exclusion: on keywords that take expressions, a string that looks like one"""
    import re

    t = s.strip()
    if len(t) >= 2 and (t[0], t[-1]) in (("(", ")"), ("[", "]"), ("{", "}"), ("/", "/"), ("`", "`")):
        return True
    if re.fullmatch(r"/.*/i?|\\\\.*\\\\i?", t, re.S):
        return True
    if re.match(r"(?i)not\s*[\[(]", t):
        return True
    if re.fullmatch(r"""(["']).*\1i?""", t, re.S):
        return True
    if len(t) >= 2 and t[0] == "%" and t[-1] == "%":
        return True
    return False


def bare_ok(w, slot):
    """can the word be written without quotes as the value of the keyword"""
    lw = w.lower()
    if lw in vocab.RESERVED or not plain_word(w) and not w.isidentifier():
        return False
    if lw in ("null", "auto", "hilite", "normal", "selected"):
        return False
    if any(0x7F < ord(c) < 0xC0 or ord(c) > 0xFF for c in w):
        return False
    if slot is not None and slot.kw == "style":
        return False  # opens a STYLE block
    if slot is not None and slot.kw == "symbol":
        return lw not in vocab.SYMBOL_KEYWORDS
    if slot is not None and lw in slot.enums:
        return False
    return True


def fix_ambiguous(items, type_, r):
    """
    SYMBOL and STYLE are keywords and blocks: nothing to avoid for values the
    generator writes (numbers, quoted strings, words that no SYMBOL block knows)
    """
    return items
