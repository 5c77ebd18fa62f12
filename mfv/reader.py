"""
Independent reader of printed Mapfile text (one keyword per line), and the
lexical class every value has to have.  Uses no mappyfile code.
"""
import re

from . import vocab
from .doc import is_hidden


class ReadError(ValueError):
    pass


NUM = re.compile(r"[-+]?(?:[0-9]+\.[0-9]*|\.[0-9]+|[0-9]+)(?:[eE][-+]?[0-9]+)?")
BIND = re.compile(r"\[[a-z0-9_\xc0-\xff\-:]+\]", re.I | re.A)
REGEX = re.compile(r"/[^/\r\n]*/i?|\\\\(?:(?!\\\\)[^\r\n])*\\\\i?")
SPACES = " \t\f\r\n"
RT = re.compile(r"%[^%\r\n]*%")
LIST = re.compile(r"\{[^{}]*\}", re.S)


class Tok:
    __slots__ = ("cls", "text", "line", "col", "start", "end")

    def __init__(self, cls, text, line, col, start, end):
        self.cls, self.text, self.line, self.col = cls, text, line, col
        self.start, self.end = start, end

    def __repr__(self):
        return f"{self.cls}:{self.text!r}"


def _balanced(text, i):
    """end of a bracketed expression starting at i, quotes respected"""
    depth = 0
    n = len(text)
    while i < n:
        c = text[i]
        if c in "\"'`":
            j = _string_end(text, i)
            i = j
            continue
        if c == "(":
            depth += 1
        elif c == ")":
            depth -= 1
            if depth == 0:
                return i + 1
        i += 1
    raise ReadError("unbalanced brackets")


def _string_end(text, i):
    q = text[i]
    j = i + 1
    while j < len(text):
        if text[j] == "\\" and q != "`" and text[j + 1 : j + 2] == q:
            j += 2
            continue
        if text[j] == q:
            return j + 1
        j += 1
    raise ReadError(f"unterminated string at {text[i:i+30]!r}")


def tokenize(text, newline="\n"):
    """(tokens, comments); a line is what newline separates, outside strings"""
    toks, comments = [], []
    i, n = 0, len(text)
    line, start = 0, 0
    while i < n:
        if text.startswith(newline, i):
            line += 1
            i += len(newline)
            start = i
            continue
        c = text[i]
        if c in SPACES:
            i += 1
            continue
        col = i - start
        if c == "#":
            j = i
            while j < n and text[j] not in "\r\n":
                j += 1
            comments.append(Tok("comment", text[i:j], line, col, i, j))
            i = j
            continue
        if text.startswith("/*", i) and text.find("*/", i + 2) >= 0:
            j = text.find("*/", i + 2)
            comments.append(Tok("comment", text[i : j + 2], line, col, i, j + 2))
            line += text.count(newline, i, j + 2)
            k = text.rfind(newline, i, j + 2)
            if k >= 0:
                start = k + len(newline)
            i = j + 2
            continue
        if c in "\"'":
            j = _string_end(text, i)
            if text[j : j + 1] == "i" and (j + 1 == n or text[j + 1] in SPACES):
                toks.append(Tok("istr", text[i : j + 1], line, col, i, j + 1))
                j += 1
            else:
                toks.append(Tok("str", text[i + 1 : j - 1], line, col, i, j))
        elif c == "(":
            j = _balanced(text, i)
            toks.append(Tok("expr", text[i:j], line, col, i, j))
        elif c == "[":
            j = text.find("]", i) + 1
            if not j:
                raise ReadError("unterminated [")
            toks.append(Tok("bind", text[i:j], line, col, i, j))
        elif c == "{":
            j = text.find("}", i) + 1
            if not j:
                raise ReadError("unterminated {")
            toks.append(Tok("list", text[i:j], line, col, i, j))
        else:
            m = REGEX.match(text, i) or RT.match(text, i)
            if m and (m.end() == n or text[m.end()] in SPACES):
                j = m.end()
                toks.append(Tok("regex" if c != "%" else "rt", m.group(), line, col, i, j))
            else:
                j = i
                while j < n and text[j] not in SPACES:
                    j += 1
                s = text[i:j]
                toks.append(Tok("num" if NUM.fullmatch(s) else "word", s, line, col, i, j))
        if j < n and text[j] not in SPACES:
            raise ReadError(f"nothing separates {text[i:j]!r} from {text[j:j+10]!r}")
        inner = text[i:j]
        k = inner.count(newline)
        if k:
            line += k
            start = i + inner.rfind(newline) + len(newline)
        i = j
    return toks, comments


class Items(list):
    """the items of a block, with the token that opened it"""

    head = None


OPENERS = set(vocab.ROOT_TYPES)
SPECIAL = {"projection", "points", "pattern"} | set(vocab.KV_BLOCKS)


def read(text, newline="\n"):
    """nested items: ("block", type, items, tok) ("attr", kw, toks) ..."""
    toks, _ = tokenize(text, newline)
    lines = []
    last_end_line = None
    for t in toks:
        # tokens belong to the line on which the previous token of the line ended
        if lines and t.line == last_end_line:
            lines[-1].append(t)
        else:
            lines.append([t])
        last_end_line = t.line + text.count(newline, t.start, t.end)
    root = []
    stack = [("root", root, None)]
    for ln in lines:
        kind, items, kw = stack[-1]
        head = ln[0]
        if len(ln) == 1 and head.cls == "word" and head.text.upper() == "END":
            if len(stack) == 1:
                raise ReadError("END without a block")
            stack.pop()
            continue
        if kind == "kv":
            if len(ln) != 2:
                raise ReadError(f"not a pair: {ln}")
            items.append((ln[0], ln[1]))
            continue
        if kind == "projection":
            if len(ln) != 1:
                raise ReadError(f"not a projection line: {ln}")
            items.append(ln[0])
            continue
        if kind == "pairs":
            if len(ln) != 2 or any(t.cls != "num" for t in ln):
                raise ReadError(f"not a number pair: {ln}")
            items.append((ln[0], ln[1]))
            continue
        if head.cls != "word":
            raise ReadError(f"expected a keyword, got {ln}")
        w = head.text.lower()
        if len(ln) == 1:
            new = Items()
            new.head = head
            if w in OPENERS:
                items.append(("block", w, new))
                stack.append(("block", new, w))
            elif w in vocab.KV_BLOCKS:
                items.append(("kv", w, new))
                stack.append(("kv", new, w))
            elif w == "projection":
                items.append(("projection", w, new))
                stack.append(("projection", new, w))
            elif w in ("points", "pattern"):
                items.append(("pairs", w, new))
                stack.append(("pairs", new, w))
            else:
                raise ReadError(f"a keyword without a value: {ln}")
            continue
        if kind == "root":
            raise ReadError(f"a keyword outside a block: {ln}")
        if w == "config":
            if len(ln) != 3:
                raise ReadError(f"not a CONFIG line: {ln}")
            items.append(("config", ln[1], ln[2]))
        else:
            items.append(("attr", w, ln[1:]))
    if len(stack) != 1:
        raise ReadError(f"{stack[-1][2]} is not closed")
    return root


# ------------------------------------------------------- expected from a dict


def expect_item(slot, kw, v):
    """list of acceptable readings (class, value) of a single (non list) value"""
    if isinstance(v, bool):
        return [("word", "TRUE" if v else "FALSE")]
    plain = slot is not None and slot.plain_string
    if isinstance(v, (int, float)):
        return [("str", str(v))] if plain else [("num", v)]
    if slot is not None and slot.cat != "simple":
        raise ReadError(f"{kw} is a block, with the value {v!r}")
    if not isinstance(v, str):
        raise ReadError(f"no representation: {v!r}")
    if slot is None:
        # a keyword the object does not have: any class will do
        return [(c, v) for c in ("str", "word", "bind", "expr", "regex", "istr", "list", "rt")]
    enums = slot.enums
    if v.lower() in enums:
        out = [("wordci", v)]
        if v.lower() == "end" or kw == "compop" or v.isdigit():
            out.append(("str", v))
        return out
    if plain:
        return [("str", v)]
    if BIND.fullmatch(v):
        return [("bind", v), ("str", v)] if kw == "text" else [("bind", v)]
    if v.startswith("(") and v.endswith(")"):
        return [("expr", v)]
    if re.match(r"NOT \(.*\)$", v, re.S):
        return [("any", v)]
    if slot.expression or kw in ("text",):
        if REGEX.fullmatch(v):
            return [("regex", v)]
        if re.fullmatch(r'"(?:\\"|[^"])*"i|\'(?:\\\'|[^\'])*\'i', v):
            return [("istr", v)]
        if LIST.fullmatch(v):
            return [("list", v), ("str", v)] if kw == "text" else [("list", v)]
    if not slot.free_string:
        if RT.fullmatch(v):
            return [("rt", v), ("str", v)]
        if re.fullmatch(r"[A-Za-z_][A-Za-z0-9_\-:]*", v) and v.lower() not in vocab.RESERVED | {"not", "null"}:
            return [("wordci" if enums else "word", v), ("str", v)]
    return [("str", v)]


def expect_rep(v):
    if isinstance(v, bool):
        return "word", "TRUE" if v else "FALSE"
    if isinstance(v, (int, float)):
        return "num", v
    return ("bind" if BIND.fullmatch(v) else "str"), v


def tok_is(t, cls, v):
    if cls == "any":
        return True
    if cls == "num":
        if t.cls != "num":
            return False
        isint = bool(re.fullmatch(r"[-+]?[0-9]+", t.text))
        if isint != isinstance(v, int):
            return False
        return (int(t.text) if isint else float(t.text)) == v
    if cls == "wordci":
        return t.cls == "word" and t.text.lower() == v.lower()
    return t.cls == cls and t.text == v


def unescaped(s, q):
    return s


def compare(text, d, newline="\n"):
    """None when the text says exactly what the dictionary says"""
    try:
        got = read(text, newline)
    except ReadError as ex:
        return f"unreadable: {ex}"
    roots = d if isinstance(d, list) else [d]
    if len(roots) != len(got):
        return f"{len(roots)} root objects were written as {len(got)}"
    for r, g in zip(roots, got):
        e = cmp_any(r, g, "")
        if e:
            return e
    return None


def cmp_any(d, g, path):
    t = d.get("__type__")
    if t in vocab.KV_BLOCKS:
        return cmp_kv(t, d, g, path)
    if g[0] != "block" or g[1] != t:
        return f"{path}: expected a {t} block, found {g[:2]}"
    return cmp_block(d, g[2], f"{path}/{t}")


def cmp_kv(kw, d, g, path):
    if g[0] != "kv" or g[1] != kw:
        return f"{path}: expected a {kw} block, found {g[:2]}"
    exp = [(k, v) for k, v in d.items() if not is_hidden(k)]
    if len(exp) != len(g[2]):
        return f"{path}/{kw}: {len(exp)} pairs written as {len(g[2])}"
    for (k, v), (a, b) in zip(exp, g[2]):
        if a.cls != "str" or a.text != k:
            return f"{path}/{kw}: key {k!r} written as {a}"
        if b.cls != "str" or b.text != str(v):
            return f"{path}/{kw}/{k}: {v!r} written as {b}"
    return None


def cmp_block(d, items, path):
    type_ = d["__type__"]
    i = 0

    def take(n=1):
        nonlocal i
        x = items[i] if i < len(items) else ("nothing", None, None)
        i += 1
        return x

    for k, v in d.items():
        if is_hidden(k):
            continue
        p = f"{path}/{k}"
        slot = vocab.slot(type_, k)
        if k in vocab.OBJECT_LISTS and isinstance(v, list):
            for j, c in enumerate(v):
                e = cmp_any(c, take(), f"{p}[{j}]")
                if e:
                    return e
        elif k in vocab.KV_BLOCKS:
            e = cmp_kv(k, v, take(), p)
            if e:
                return e
        elif k == "projection":
            g = take()
            if g[0] != "projection":
                return f"{p}: expected PROJECTION, found {g[:2]}"
            vals = [v] if isinstance(v, str) else list(v)
            if len(vals) == 1 and str(vals[0]).lower() == "auto":
                if len(g[2]) != 1 or g[2][0].text.lower() != "auto":
                    return f"{p}: {vals} written as {g[2]}"
            elif [("str", x) for x in vals] != [(t.cls, t.text) for t in g[2]]:
                return f"{p}: {vals} written as {g[2]}"
        elif k in ("points", "pattern"):
            parts = [v]
            if k == "points" and any(not x or isinstance(x[0], (list, tuple)) for x in v):
                parts = v
            for part in parts:
                g = take()
                if g[0] != "pairs" or g[1] != k:
                    return f"{p}: expected {k}, found {g[:2]}"
                if len(g[2]) != len(part):
                    return f"{p}: {len(part)} pairs written as {len(g[2])}"
                for a, b in zip(part, g[2]):
                    for x, t in zip(a, b):
                        if not tok_is(t, "num", x):
                            return f"{p}: {a} written as {b}"
        elif k == "config":
            for ck, cv in v.items():
                if is_hidden(ck):
                    continue
                g = take()
                if g[0] != "config" or g[1].cls != "str" or g[1].text.lower() != ck.lower():
                    return f"{p}: expected {ck}, found {g}"
                if g[2].cls != "str" or g[2].text != str(cv):
                    return f"{p}/{ck}: {cv!r} written as {g[2]}"
        elif k in vocab.REPEATED:
            for x in [v] if isinstance(v, str) else v:
                g = take()
                if g[0] == "attr" and g[1] == k and isinstance(x, (bool, list, tuple)):
                    want = [expect_rep(y) for y in (x if isinstance(x, (list, tuple)) else [x])]
                    if len(want) != len(g[2]) or not all(tok_is(t, *w) for t, w in zip(g[2], want)):
                        return f"{p}: {x!r} written as {g[2]}"
                    continue
                if g[0] != "attr" or g[1] != k or len(g[2]) != 1:
                    return f"{p}: expected {k}, found {g}"
                if g[2][0].cls != "str" or g[2][0].text != str(x):
                    return f"{p}: {x!r} written as {g[2]}"
        elif isinstance(v, dict) and "__type__" in v:
            e = cmp_any(v, take(), p)
            if e:
                return e
        else:
            g = take()
            if g[0] != "attr" or g[1] != k:
                return f"{p}: expected {k}, found {g[:3]}"
            toks = g[2]
            if isinstance(v, (list, tuple)):
                if len(v) != len(toks):
                    return f"{p}: {v!r} written as {toks}"
                for x, t in zip(v, toks):
                    if isinstance(x, str):
                        ok = t.cls == ("bind" if BIND.fullmatch(x) else "str") and t.text == x
                    else:
                        ok = tok_is(t, "num", x)
                    if not ok:
                        return f"{p}: {v!r} written as {toks}"
            else:
                if len(toks) != 1:
                    return f"{p}: {v!r} written as {toks}"
                if not any(tok_is(toks[0], c, x) for c, x in expect_item(slot, k, v)):
                    return f"{p}: {v!r} written as {toks[0]}"
    if i < len(items):
        return f"{path}: extra text {items[i][:2]}"
    return None
