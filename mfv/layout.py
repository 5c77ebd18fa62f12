"""Monitor of the printed layout: indentation, line breaks, block ends, end comments, alignment (C16)"""

from __future__ import annotations

from . import vocab
from .reader import OPENERS, ReadError, tokenize


class Layout:
    def __init__(self, text, o):
        self.text = text
        self.o = o
        self.lines = 0
        self.blocks = 0
        self.aligned = 0
        self.maxdepth = 0
        self.end_comments = 0

    def check(self, comments=False):
        """None, or what breaks the contract; comments: the dictionary holds comments"""
        text, o = self.text, self.o
        nl, unit = o["newlinechar"], o["spacer"] * o["indent"]
        try:
            toks, coms = tokenize(text, nl)
        except ReadError as e:
            return f"unreadable: {e}"
        events = sorted([(t.start, t.end, t) for t in toks] + [(c.start, c.end, c) for c in coms], key=lambda e: e[0])
        lines = []
        at = 0
        for s, e, t in events:
            gap = text[at:s]
            if at == 0 and not lines:
                if gap and t.cls != "comment":
                    return f"{gap!r} before the first block"
                lines.append((gap, [t]))
            elif "\n" in gap or "\r" in gap or nl in gap:
                if not gap.startswith(nl):
                    return f"a line break is {gap!r} before {t!r}, not {nl!r}"
                lines.append((gap[len(nl):], [t]))
            else:
                if gap.strip(" ") or not gap:
                    return f"{gap!r} within a line, before {t!r}"
                lines[-1][1].append(t)
            at = e
        if text[at:]:
            return f"{text[at:]!r} after the last END"

        stack = []  # [kind, type, depth, attrs]
        for ws, ln in lines:
            self.lines += 1
            if all(t.cls == "comment" for t in ln):
                if not comments:
                    return f"an unexpected comment line {ln}"
                if "\n" in ws or "\r" in ws:
                    return f"an empty line before {ln}"
                continue
            if ln[0].cls == "comment":
                return f"a comment before {ln[1:]} on its line"
            head = ln[0]
            code = [t for t in ln if t.cls != "comment"]
            trail = [t for t in ln if t.cls == "comment"]
            if ln[: len(code)] != code:
                return f"a comment inside {ln}"
            is_end = len(code) == 1 and head.cls == "word" and head.text == "END" and stack
            # the word END is written as a string when it is a value
            kind = stack[-1][0] if stack else None
            depth = len(stack) - (1 if is_end else 0)
            if ws != unit * depth:
                return f"{ws!r} before {ln}, expected {depth} x {unit!r}"
            self.maxdepth = max(self.maxdepth, depth)
            if is_end:
                _, type_, d, attrs = stack.pop()
                want = f" # {type_.upper()}" if o["end_comment"] else ""
                rest = text[head.end: trail[-1].end if trail else head.end]
                if rest != want:
                    return f"END of {type_} at depth {d} is followed by {rest!r}, expected {want!r}"
                self.end_comments += bool(want)
                e = self.alignment(type_, attrs)
                if e:
                    return e
                continue
            if trail and not comments:
                return f"an unexpected comment in {ln}"
            if kind in ("kv", "pairs"):
                if len(code) != 2:
                    return f"not one pair on a line: {ln}"
                continue
            if kind == "projection":
                if len(code) != 1:
                    return f"not one value on a line: {ln}"
                continue
            if head.cls != "word" or head.text != head.text.upper():
                return f"expected an upper case keyword, got {ln}"
            w = head.text.lower()
            if len(code) == 1:
                self.blocks += 1
                if trail:
                    return f"a comment after the opening of {w}"
                k = (
                    "block" if w in OPENERS
                    else "kv" if w in vocab.KV_BLOCKS
                    else "projection" if w == "projection"
                    else "pairs" if w in ("points", "pattern")
                    else None
                )
                if k is None:
                    return f"the keyword {w} has no value"
                stack.append([k, w, depth, []])
                continue
            if not stack:
                return f"a keyword outside of a block: {ln}"
            if code[1:] and w in vocab.KV_BLOCKS + ("projection", "points", "pattern"):
                return f"more than {w} on its line: {ln}"
            if w != "config":
                stack[-1][3].append((w, code[1].start - head.start))
        if stack:
            return f"{stack[-1][1]} is not closed"
        return None

    def alignment(self, type_, attrs):
        if not self.o["align_values"] or not attrs:
            return None
        step = max(1, self.o["indent"])
        longest = max(len(w) for w, _ in attrs)
        col = (longest // step + 1) * step
        for w, c in attrs:
            if c != col:
                return f"{type_}: the value of {w} is {c} columns after its keyword, expected {col} ({attrs})"
        self.aligned += 1
        return None
