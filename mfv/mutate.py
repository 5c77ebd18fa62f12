"""Token-level mutations of Mapfile texts: cut, repeat, swap, replace, insert, splice two documents"""

from __future__ import annotations

import re

from . import common, doc, gen, vocab

TOKEN = re.compile(
    r"""("(?:\\"|[^"])*"i?|'(?:\\'|[^'])*'i?|`[^`\n]*`i?|/\*.*?\*/|\#[^\r\n]*|[ \t\r\n\f]+|[A-Za-z0-9_\-.:\xc0-\xff]+|.)""",
    re.S,
)

EXTRA = ["END", "MAP", "LAYER", "CLASS", "STYLE", "SYMBOL", "LABEL", "NAME", "'s'", '"t"', "1", "2.5", "-1", "TRUE",
         "AUTO", "NULL", "#c\n", "/* c */", "(", ")", "[a]", "{a,b}", "/re/", "%v%", "[", "]", "{", "}", ",", "=",
         "METADATA", "POINTS", "PATTERN", "PROJECTION", "VALIDATION", "VALUES", "CONFIG", "CONNECTIONOPTIONS",
         "INCLUDE", "EXPRESSION", "COLOR", "TYPE", "x", "'#ff0000'", "([a] = 1)", "NOT", "AND", "+", "*", "%", "^", "!",
         "SYMBOLSET", "GRID", "FEATURE", "QUERYMAP", "COMPOSITE", "-", "`a`", "'b'i", "\\\\x\\\\", "STATUS", "ON"]


def tokens(text):
    return TOKEN.findall(text)


def source(rng):
    """a text to start from: a file of the repository or a rendered random document"""
    if rng.random() < 0.35 and common.corpus():
        for _ in range(5):
            fn, text = rng.choice(common.corpus())
            if len(text) < 6000:
                return text
    g = gen.Gen(rng, rng.choice(["valid", "loose"]), maxdepth=3, kw_p=0.15, avoid_quote='"')
    g.maxblocks = 8
    return doc.render(g.document(), doc.Style(rng, comments=rng.random() < 0.3)).text


LOOKALIKE = {"s": "ſ", "k": "\u212a", "i": "ı", "a": "\u212b", "n": "ŉ", "o": "Ω"}
KWS = sorted({k for t in vocab.SLOTS.values() for k in t if not k.endswith("s") or len(k) < 6})


def mutant(rng, text, n=None):
    t = tokens(text)
    for _ in range(n or rng.choice([1, 1, 2, 3, 5])):
        if not t:
            break
        words = [i for i, x in enumerate(t) if not x.isspace()]
        if not words:
            break
        i = rng.choice(words)
        x = rng.random()
        if x < 0.2:
            del t[i]
        elif x < 0.35:
            j = rng.choice(words)
            t[i], t[j] = t[j], t[i]
        elif x < 0.5:
            t[i] = rng.choice(EXTRA)
        elif x < 0.65:
            t.insert(i, rng.choice(EXTRA) + " ")
        elif x < 0.75:
            j = min(len(t), i + rng.randint(1, 8))
            t[i:i] = t[i:j] + [" "]
        elif x < 0.85:
            t[i] = rng.choice(KWS).upper()
        elif x < 0.9:
            j = rng.choice(words)
            t[i] = t[j]
        elif x < 0.93:
            # a letter that a case-insensitive match can take for another one, or whose cases do not correspond
            k = rng.randrange(len(t[i]))
            c = t[i][k]
            t[i] = t[i][:k] + rng.choice([LOOKALIKE.get(c.lower(), "ß"), "ß", "ÿ", "À", "Ÿ"]) + t[i][k + 1:]
        elif x < 0.95:
            t[i] = rng.choice(["1e999", "-1e999", "1e-999", "1e308", "straße", "ÿx", "7" * 400, "MÜLLER", "à"])
        else:
            del t[i:i + rng.randint(1, 10)]
    return "".join(t)
