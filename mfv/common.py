"""Shared by the checks: the API under test, faster Lark construction, corpus, comparators, snapshots"""

from __future__ import annotations

import glob
import os
import re
import shutil
import tempfile
import zlib

from . import doc, vocab
from .runner import REPO, short  # noqa: F401

import mappyfile  # noqa: E402
import lark  # noqa: E402
from mappyfile.parser import Parser  # noqa: E402
from mappyfile.transformer import MapfileToDict  # noqa: E402

_tmp = {}


def scratch():
    """a folder of this run, removed when the process that made it ends"""
    if "dir" not in _tmp:
        import atexit

        _tmp["dir"] = tempfile.mkdtemp(prefix="mfv-")
        _tmp["pid"] = os.getpid()

        def remove():
            if os.getpid() == _tmp["pid"]:
                shutil.rmtree(_tmp["dir"], ignore_errors=True)

        atexit.register(remove)
    return _tmp["dir"]


def fast_lark(share=True):
    """
    Make Lark read its parse tables from a cache file of this run (Lark's own cache option, keyed by the grammar
    text), and share the Lark objects without callbacks: a parser then costs 0-20 ms instead of 200 ms. This
    patches the library, never mappyfile. C12 does without it.
    """
    if _tmp.get("fast"):
        return
    _tmp["fast"] = True
    cachedir = os.path.join(scratch(), "lark")
    os.makedirs(cachedir, exist_ok=True)
    init = lark.Lark.__init__
    shared = {}
    opener = lark.Lark.open.__func__

    def key(kw):
        return tuple(sorted((k, repr(v)) for k, v in kw.items()))

    def new_init(self, grammar, **kw):
        if kw.get("parser") == "lalr" and not kw.get("cache"):
            h = abs(hash(key({k: v for k, v in kw.items() if k not in ("lexer_callbacks", "_plugins")})))
            kw["cache"] = os.path.join(cachedir, f"t{h}")
        init(self, grammar, **kw)

    def new_open(cls, fn, rel_to=None, **kw):
        if not share or kw.get("lexer_callbacks") or kw.get("transformer") or kw.get("postlex"):
            return opener(cls, fn, rel_to, **kw)
        k = (cls, fn, rel_to, key(kw))
        if k not in shared:
            shared[k] = opener(cls, fn, rel_to, **kw)
        return shared[k]

    lark.Lark.__init__ = new_init
    lark.Lark.open = classmethod(new_open)
    for c in (False, True):
        try:
            mappyfile.loads("MAP\nEND", include_comments=c)
        except Exception:  # noqa: the checks will see it
            pass


def loads(text, **kw):
    kw.setdefault("expand_includes", False)
    return mappyfile.loads(text, **kw)


_workers = {}


def quick_loads(text, **kw):
    """
    loads, but with a Parser that is used again when comments are kept (making one takes 20 ms, as Lark objects with
    callbacks are not shared); one text in sixteen goes through loads itself
    """
    kw.setdefault("expand_includes", False)
    if not kw.get("include_comments") or zlib.crc32(text.encode("utf-8", "surrogatepass")) % 16 == 0:
        return mappyfile.loads(text, **kw)
    k = tuple(sorted(kw.items()))
    if k not in _workers:
        _workers[k] = (
            Parser(expand_includes=kw["expand_includes"], include_comments=True),
            MapfileToDict(include_position=kw.get("include_position", False), include_comments=True),
        )
    p, m = _workers[k]
    return m.transform(p.parse(text))


LARK_ERRORS = (lark.exceptions.LarkError,)


def try_loads(text, **kw):
    """(dictionary, None) or (None, exception of the Lark family); other exceptions propagate"""
    try:
        return loads(text, **kw), None
    except LARK_ERRORS as e:
        return None, e


def where(e):
    return f"{type(e).__name__} at {getattr(e, 'line', '?')}:{getattr(e, 'column', '?')} token {getattr(e, 'token', None)!r}"


# --------------------------------------------------------------------------------------------------- corpus
_corpus = []


def corpus():
    """(path, text) of the Mapfiles that come with the repository and that load without their includes"""
    if not _corpus:
        fns = sorted(
            glob.glob(os.path.join(REPO, "tests", "**", "*.map"), recursive=True)
            + glob.glob(os.path.join(REPO, "docs", "**", "*.map"), recursive=True)
        )
        for fn in fns:
            try:
                with open(fn, encoding="utf-8", newline="") as f:
                    _corpus.append((fn, f.read()))
            except (OSError, UnicodeDecodeError):
                pass
    return _corpus


# ---------------------------------------------------------------------------------------------- comparators
def slot_of(type_, key):
    return vocab.slot(type_, key)


def rt_same(a, b, path="", slot=None):
    """
    b is what a became after printing and loading again. None, or (class, description), where class is "diff"
    or the name of a known loss. Allowed: case of bare words of enumerated keywords, and a number that became the
    equal string on a keyword the schema types as a string.
    """
    if isinstance(a, dict):
        if not isinstance(b, dict):
            return "diff", f"{path}: an object became {b!r}"
        ka, kb = list(a), list(b)
        if [k for k in ka if k != "__type__"] != [k for k in kb if k != "__type__"] or set(ka) != set(kb):
            return "diff", f"{path}: keys {ka} became {kb}"
        t = a.get("__type__")
        for k in ka:
            r = rt_same(a[k], b[k], f"{path}/{k}", slot_of(t, k) if t else None)
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return "diff", f"{path}: {a!r} became {b!r}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = rt_same(x, y, f"{path}[{i}]", slot)
            if r:
                return r
        return None
    if type(a) is type(b) and a == b:
        return None
    if isinstance(a, str) and isinstance(b, str):
        if a.lower() == b.lower() == "auto" and path.split("/")[-1] == "projection[0]":
            return None
        if a.lower() == b.lower() and slot is not None:
            if slot.cat == "projection" and a.lower() == "auto":
                return None
            if slot.cat == "simple" and slot.enums and not (slot.free_string and a.lower() not in slot.enums):
                return None
            if slot.cat == "simple" and slot.enums and a.lower() in slot.enums:
                return None
    if isinstance(a, (int, float)) and not isinstance(a, bool) and isinstance(b, str):
        if slot is not None and slot.cat == "simple" and slot.plain_string and number_text(a) == b:
            return None
        if path.split("/")[-1].split("[")[0] in vocab.REPEATED and number_text(a) == b:
            return None
    return "diff", f"{path}: {a!r} became {b!r}"


def number_text(n):
    return str(n)


# ------------------------------------------------------------------------------------------------ snapshots
def snapshot(o):
    """everything observable about a value: classes, keys in order, values, identities of the containers"""
    ids = []

    def go(x):
        if isinstance(x, dict):
            ids.append(id(x))
            return (type(x).__name__, tuple((repr(k), go(v)) for k, v in dict.items(x)))
        if isinstance(x, (list, tuple)):
            ids.append(id(x)) if isinstance(x, list) else None
            return (type(x).__name__, tuple(go(v) for v in x))
        return (type(x).__name__, repr(x))

    return go(o), tuple(ids)


def content(o):
    return snapshot(o)[0]


DEFAULTS = dict(indent=4, spacer=" ", quote='"', newlinechar="\n", end_comment=False, align_values=False,
                separate_complex_types=False)

INDENTS = [0, 1, 2, 3, 4, 7]
SPACERS = [" ", "\t", "  ", ""]
QUOTES = ['"', "'"]
NEWLINES = ["\n", "\r\n", "\n\n", "\r"]


def options(rng, **fixed):
    o = dict(
        indent=rng.choice(INDENTS),
        spacer=rng.choice(SPACERS),
        quote=rng.choice(QUOTES),
        newlinechar=rng.choice(NEWLINES),
        end_comment=rng.random() < 0.5,
        align_values=rng.random() < 0.5,
        separate_complex_types=rng.random() < 0.3,
    )
    o.update(fixed)
    return o


def has_unescaped(s, q):
    return q in s.replace("\\" + q, "")


def strings_of(o):
    if isinstance(o, dict):
        for k, v in dict.items(o):
            yield k
            yield from strings_of(v)
    elif isinstance(o, (list, tuple)):
        for v in o:
            yield from strings_of(v)
    elif isinstance(o, str):
        yield o


def objects_of(d, path=()):
    """(path, object) of every Mapfile object in document order, key-value blocks included"""
    if isinstance(d, list):
        for i, x in enumerate(d):
            yield from objects_of(x, path + (i,))
    elif isinstance(d, dict):
        yield path, d
        for k, v in list(dict.items(d)):
            if isinstance(v, dict) and not doc.is_hidden(k):
                yield from objects_of(v, path + (k,))
            elif isinstance(v, list) and v and isinstance(v[0], dict):
                for i, x in enumerate(v):
                    if isinstance(x, dict):
                        yield from objects_of(x, path + (k, i))


OPERATORS = set("and or not in eq ne lt le gt ge like".split())
WORD = re.compile(r"[A-Za-z_\xc0-\xff]")
IDENT = re.compile(r"[a-z0-9_]+")


def unrepresentable(text, d, quote='"'):
    """
    Why the dictionary loaded from the text cannot be written back faithfully (documented in known_findings.json):
      output-quote      a keyword's string holds the output quote itself, unescaped
      backslash-end     a string ends in a backslash
      lookalike         a quoted string reads as an expression, list, regex, binding or variable, and the keyword
                        takes those too
      keyword           an unknown keyword that is a number or an operator (400, AND), read as one after a value
                        such as SIZE A, or that is spelled as one of the keys of lists of objects (STYLES 1)
      chain             an expression with hundreds of conditions, whose brackets nest deeper than can be read back
    """
    from .gen import looks_special

    out = set()

    def go(x, slot, type_):
        if isinstance(x, dict):
            t = x.get("__type__")
            for k, v in dict.items(x):
                if doc.is_hidden(k):
                    continue
                if t not in vocab.KV_BLOCKS and t is not None:
                    if not WORD.match(k) or k in OPERATORS or k in ("true", "false", "null", "__type__"):
                        out.add("keyword")
                    if k in vocab.OBJECT_LISTS and not (isinstance(v, list) and all(isinstance(x, dict) for x in v)):
                        out.add("keyword")
                if t in vocab.KV_BLOCKS or t is None:
                    go(k, None, None)
                if k in vocab.REPEATED or (k == "config" and isinstance(v, dict)):
                    go(v, None, None)
                    continue
                go(v, slot_of(t, k) if t in vocab.SLOTS else None, t)
        elif isinstance(x, (list, tuple)):
            for v in x:
                go(v, slot, type_)
        elif isinstance(x, str):
            if x.endswith("\\"):
                out.add("backslash-end")
            if x.count("(") > 150:
                out.add("chain")
            if type_ in vocab.ROOT_TYPES and (slot is None or slot.cat == "simple"):
                if has_unescaped(x, quote):
                    out.add("output-quote")
            if has_unescaped(x, '"') and has_unescaped(x, "'"):
                out.add("output-quote")
            if (slot is None or not slot.plain_string) and looks_special(x):
                if any(q + x + q in text for q in "\"'"):
                    out.add("lookalike")

    go(d, None, None)
    return out
