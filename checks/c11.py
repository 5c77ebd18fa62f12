"""C11: any input is parsed or refused with a parse error, promptly"""

from __future__ import annotations

import gc
import itertools
import re
import signal
import time

import lark

from mfv import common, doc, gen, matrix, mutate, reader, remote, vocab
from mfv.common import mappyfile

PROPERTY = "C11"
LEVEL = "exploration"
RULE = (
    "cases are (text, flags). After every call of loads: it returned objects, or raised an exception of the Lark family; a syntax "
    "error carries the line and column where the text has the offending token. All sequences of one and two token classes inside "
    "every block type, sequences of three to six sampled; mutants and prefixes of generated documents and of the files of the "
    "repository; characters of every class; faults inserted at known places, whose line and column must be reported; all block "
    "types as roots. Promptness: CPU time of every call, and its growth when the input is made eight times longer, for families "
    "of repeated constructs and of repeated fragments after every kind of context. Without Cython: same outcomes. "
    "Non-trivial: counted by text."
)
ASSUMPTIONS = [
    "I/O errors of INCLUDE lines are C15's; here includes are only expanded in texts without the word",
    "'roughly proportional' is decided as: eight times the input costs less than 22 times the CPU time, or less than 0.4 s",
    "lark's VisitError (a value that cannot be converted) is accepted as a Lark error without a position",
]
UNIT_LIMIT = 200
CPU_LIMIT = 20
REPORT_UNITS = True

ALPHA = ["NAME", "SYMBOL", "STYLE", "CLASS", "LAYER", "LABEL", "END", "POINTS", "PATTERN", "PROJECTION", "METADATA",
         "VALIDATION", "VALUES", "CONFIG", "CONNECTIONOPTIONS", "SYMBOLSET", "MAP", "GRID", "FEATURE", "INCLUDE", "AUTO",
         "TRUE", "1", "-2.5", "1 2", "3 4 5", '"s"', "'s'i", "`b`", "[a]", "(", "([a] = 1)", ")", "{a,b}", "{", "}", "/re/",
         "%v%", "'#ff0000'", "#c\n", "/*c*/", "AND", "NOT", "OR", "=", "*", ",", "-", "word", "a/b.c", "COLOR", "EXPRESSION",
         "TYPE", "STATUS", "f([a])", "\\\\re\\\\", "NULL", "END END", "QUERYMAP", "COMPOSITE", "LEADER", "WEB", "PROCESSING",
         "COMPFILTER", "SIZE", "SCALETOKEN", "\"", "'", "[", "]", "/", "0x1", "1e5", ".5", "é", "OFFSET", "STYLEITEM", "DATA"]
TYPES = sorted(vocab.TYPES)

CTX = ["", "MAP ", "MAP NAME ", 'MAP NAME "a', "CLASS EXPRESSION ", "CLASS EXPRESSION (", "CLASS EXPRESSION ([a] = ",
       "LAYER PROCESSING ", "SYMBOL ", "SYMBOL NAME ", "MAP CONFIG ", "MAP WEB METADATA ", 'MAP WEB METADATA "a" ',
       "FEATURE POINTS ", "MAP PROJECTION ", "LAYER CLASSITEM ", "STYLE COLOR ", "STYLE SIZE ", "LAYER DATA ", "CLASS TEXT ",
       "LAYER FILTER ", "CLASS EXPRESSION {", "CLASS EXPRESSION /", "STYLE SYMBOL ", "LAYER INCLUDE ", "STYLE PATTERN ",
       "CLASS EXPRESSION ([a] = 1 AND ", "SYMBOLSET SYMBOL ", "LAYER VALIDATION ", "SCALETOKEN VALUES ", "MAP # "]
REPS = ["/* a ", "/*", "*/", '"a ', '"', "'", "'a' ", "`", "`a`", "[", "[a ", "[a]", "[a] ", "{", "{a", "{a,", "a,", "/", "/a", "/a/",
        "\\", "\\\\", '\\"', "\\'", "%", "%a", "%a%", "%a% ", "(", ")", "( ", "(a", "a", "a ", "1", "1 ", "1.", ".", "-", "- ", "1e",
        "#", "#f", "#ff0000", "#a\n", "\n", "\r", "\t", "\x0b", "\xa0", "é", "\ufeff", "&", "&&", "|", "!", "!!", "! ", "NOT ", "~",
        "~*", "=", "==", "=*", "<", ">=", "+", "+ ", "[a] + ", "[a] = 1 AND ", '"a" ', '"a"i', '"a"i ', "END ", "END", "NAME ",
        "CLASS ", "STYLE ", "LAYER a ", '"i', "/a/i", "/a/i ", "\\\\x\\\\", "\\\\x", ":", "::", "a:", "a/", "a.b/", "1:", "/a b",
        "^", "* ", "IN ", "a(", "f(", 'tostring([a],"%.2f") ', "NULL ", "AUTO ", 'INCLUDE "', "'\"", "\"'", '"\n', "'\n", "/*\n",
        '# "\n', '/* " */', "@", "$", "a@", "http://a?b=c&", "{1 2,", "1 2 ", "\x00", "/**", "**/", "a\\", "\\ ", "[a]\\", "<=>", "0",
        "-1", "--", "e", "_", "a_1", "\"a\\\"", "'a\\'", "{a}", "{'a',", "`a", "`\\`"]
PAIRS = list(itertools.product(CTX, REPS))

# openers of everything that has an end, what may be repeated inside, and what may follow
OPEN = ["/*", "MAP /*", "MAP NAME /", "LAYER FILTER /", "CLASS EXPRESSION /", "LAYER FILTER \\\\", "CLASS EXPRESSION \\\\",
        'MAP NAME "', "MAP NAME '", "MAP NAME `", "LAYER CLASSITEM [", "CLASS EXPRESSION {", "CLASS EXPRESSION (", "CLASS EXPRESSION (`",
        'CLASS EXPRESSION ("', "CLASS EXPRESSION ('", "CLASS EXPRESSION ([", "CLASS EXPRESSION ([a] ~ /", "CLASS EXPRESSION (f(",
        "CLASS TEXT (", "LAYER DATA %", "STYLE SIZE %", "STYLE SIZE -", "STYLE SIZE 1", "STYLE SIZE .", "STYLE COLOR #", "STYLE COLOR '#", "MAP #",
        "MAP NAME ", "MAP ", "", "FEATURE POINTS ", "MAP PROJECTION ", "MAP WEB METADATA ", "MAP CONFIG ", 'MAP CONFIG "', 'MAP WEB METADATA "',
        "STYLE SYMBOL ", "LAYER INCLUDE ", "STYLE PATTERN ", "MAP NAME a", "MAP NAME a:", "MAP NAME http://", "CLASS EXPRESSION {'", "MAP END "]
UNITS = list("*/\\\"'`[]{}()%#-.,+^=<>~!&| \t\r\n\x0baA1_:@$é\xa0")
SUFFIX = ["", " ", "\n", "x", "*", "/", "\\", '"', "'", "`", "]", "}", ")", "%", "*/", " END", "i", "!", "\n END", '" END', "' END", ") END", "/ END"]

FAMILIES = {
    "closed comments": lambda n: "MAP " + "/* a */ " * n + "END",
    "line comments": lambda n: "MAP\n" + "# a\n" * n + "END",
    "keywords": lambda n: "MAP\n" + 'NAME "a"\n' * n + "END",
    "unknown keywords": lambda n: "MAP\n" + "".join(f"K{i} 1\n" for i in range(n)) + "END",
    "repeated keyword": lambda n: "LAYER\n" + 'PROCESSING "a"\n' * n + "END",
    "commented keywords": lambda n: "MAP\n" + '# c\nNAME "a" # d\n' * n + "END",
    "layers": lambda n: "MAP\n" + 'LAYER NAME "x" END\n' * (n // 2) + "END",
    "points": lambda n: "FEATURE POINTS " + "1 2 " * n + "END END",
    "metadata": lambda n: "MAP WEB METADATA " + "".join(f'"k{i}" "v" # c\n' for i in range(n)) + "END END END",
    "same metadata": lambda n: "MAP WEB METADATA " + '"k" "v"\n' * n + "END END END",
    "list": lambda n: "CLASS EXPRESSION {" + ",".join(f"a{i}" for i in range(n)) + "} END",
    "long string": lambda n: 'MAP NAME "' + "ab \\\" '" * n + '" END',
    "long word": lambda n: "MAP NAME " + "ab" * n + " END",
    "long name": lambda n: "MAP " + "ab" * n + " 1 END",
    "long number": lambda n: "MAP MAXSIZE " + "1" * min(n, 4000) + " END",
    "config": lambda n: "MAP " + "".join(f'CONFIG "k{i}" "v"\n' for i in range(n)) + "END",
    "projection": lambda n: "MAP PROJECTION " + '"init=epsg:1" ' * n + "END END",
    "classes": lambda n: "LAYER " + "CLASS STYLE COLOR 1 2 3 END END " * (n // 4) + "END",
    "pattern": lambda n: "STYLE PATTERN " + "1 2 " * n + "END END",
    "many points": lambda n: "FEATURE " + "POINTS 1 2 END " * n + "END",
    "includes": lambda n: "MAP " + 'INCLUDE "a.map" ' * n + "END",
    "roots": lambda n: "CLASS END " * n,
    "symbols": lambda n: "SYMBOLSET " + 'SYMBOL NAME "a" TYPE ELLIPSE POINTS 1 1 END END ' * (n // 4) + "END",
    "blank lines": lambda n: "MAP" + "\n \r\n\t" * n + "END",
    "unclosed": lambda n: "MAP " + "LAYER " * n,
    "too many ends": lambda n: "MAP " + "END " * n,
    "expressions": lambda n: "LAYER " + "CLASS EXPRESSION ([a] = 1 AND [b] = 'x') END " * (n // 6) + "END",
    "regexes": lambda n: "LAYER " + "FILTER /a.*b/\n" * n + "END",
    "long regex": lambda n: "LAYER FILTER /" + "a.b|" * n + "/ END",
    "bindings": lambda n: "STYLE " + "SIZE [a] " * n + "END",
    "long expression": lambda n: "CLASS EXPRESSION (" + " OR ".join(f"[a{i}] = {i}" for i in range(min(n, 4000))) + ") END",
    "nested blocks": lambda n: "CLASS " * min(n, 8000) + "END " * min(n, 8000),
    "nested brackets": lambda n: "CLASS EXPRESSION " + "(" * n + "[a] = 1" + ")" * n + " END",
    "symbol values": lambda n: "STYLE " + "SYMBOL x " * n + "END",
    "layer name grid": lambda n: "MAP " + "LAYER NAME grid END " * (n // 2) + "END",
    "style values": lambda n: "CLASS " + "STYLE END " * (n // 2) + "END",
}
FAM = sorted(FAMILIES)
FLAGS = [{}, {"include_position": True}, {"include_comments": True}, {"include_position": True, "include_comments": True}]


class TooLong(BaseException):
    pass


def _cpu(signum, frame):
    raise TooLong()


def start(tier):
    signal.signal(signal.SIGVTALRM, _cpu)
    common.corpus()


def setup(tier):
    common.fast_lark()
    start(tier)


def plan(tier):
    big = tier == "thorough"
    return [
        ("families", len(FAM), 1),
        ("growth", len(PAIRS) // 8 + 1 if big else 60, 1),
        ("pump", len(OPEN), 2),
        ("enum", len(TYPES) * len(ALPHA), 6),
        ("enum3", 3000 if big else 150, 3),
        ("mutants", 6000 if big else 300, 5),
        ("prefixes", 1200 if big else 60, 2),
        ("chars", 3000 if big else 150, 3),
        ("faults", 3000 if big else 250, 3),
        ("roots", len(TYPES), 1),
        ("corpus", len(common.corpus()), 6),
        ("pure", 60 if big else 6, 1),
        ("deep", 12, 1),
    ]


def REQUIRED(tier):
    return {"evaluations": 60000, "accepted": 6000, "syntax_errors": 20000, "growth_pairs": 400, "pumped": 30000, "faults_located": 1500, "roots": 19}


def lark_line(text, offset):
    return text.count("\n", 0, offset) + 1, offset - (text.rfind("\n", 0, offset) + 1) + 1


def offset_of(text, line, col):
    at = 0
    for _ in range(line - 1):
        at = text.index("\n", at) + 1
    return at + col - 1


def position_problem(text, e):
    """None, or why the position of the error is not that of its token"""
    line, col = e.line, e.column
    if type(line) is not int or type(col) is not int or line < 1 or col < 1:
        return f"line {line!r} column {col!r}"
    try:
        at = offset_of(text, line, col)
    except ValueError:
        return f"line {line} is outside the text"
    if isinstance(e, lark.exceptions.UnexpectedToken):
        if e.token.type == "$END":
            if "{" in text[:at] or "#" in text[at:] or "/*" in text[at:]:
                return None  # the items of a list are tokens that hold white space; where the comments start is not known here
            return None if at <= len(text) and (END_REST.match(text, at) or last_token(text, at)) else f"end reported at {line}:{col}"
        if not text.startswith(str(e.token), at):
            return f"token {str(e.token)!r} is not at {line}:{col}"
    elif isinstance(e, lark.exceptions.UnexpectedCharacters):
        if at >= len(text):
            return f"{line}:{col} is outside the text"
        if text[at] != e.char:
            return f"character {e.char!r} is not at {line}:{col}"
    return None


END_REST = re.compile(r"(\s|\#[^\n]*|/\*.*?\*/)*\Z", re.S)


def last_token(text, at):
    """does the last token of the text start here? (a string, an expression in brackets or a word)"""
    m = re.compile(r"""("(\\"|[^"])*"i?|'(\\'|[^'])*'i?|`[^`]*`i?|%.*?%|\[[^\]]*\]|\{[^}]*\}?|/.*/i?|\\\\.*\\\\i?|[^\s"'`\[{]+?)""", re.S)
    for m in (m.match(text, at), re.compile(r"\S+").match(text, at), re.compile(r"[^\s#()/]+").match(text, at)):
        if m and END_REST.match(text, m.end()):
            return True
    if text[at] in "/\\" and any(END_REST.match(text, m.end()) for m in re.finditer(r"[/\\]i?", text[:at + 500]) if m.start() > at):
        return True
    # further characters of the same token
    rest = text[at:]
    return len(rest) < 200 and len(rest.split()) <= 1


def observe(mon, text, label, flags=None, expect=None):
    """
    runs loads once and judges the outcome; expect: (line, column) where a syntax error has to be reported
    returns (seconds of CPU time, the error, the dictionary)
    """
    flags = flags or {}
    t0 = time.process_time()
    d = err = None
    if "expand_includes" not in flags and "include" not in text.lower() and len(text) % 2:
        flags = dict(flags, expand_includes=True)
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
        try:
            d = common.quick_loads(text, **flags)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except lark.exceptions.LarkError as e:
        err = e
    except TooLong:
        mon.violation("hang", f"{label}: loads used more than {CPU_LIMIT} s of CPU on {len(text)} characters\n{common.short(repr(text), 1500)}")
    except Exception as e:  # noqa
        import traceback

        mon.violation(f"escaped:{type(e).__name__}", f"{label}: {flags} {common.short(repr(text), 1500)}\n"
                      + traceback.format_exc()[-1200:])
    t = time.process_time() - t0
    mon.case(text)
    if d is not None:
        mon.count("accepted")
        ok = isinstance(d, dict) or (isinstance(d, list) and all(isinstance(x, dict) for x in d) and len(d) > 1)
        mon.check(ok, "result", lambda: f"{label}: loads returned {common.short(repr(d))} for {common.short(repr(text), 1500)}")
        if expect:
            mon.violation("accepted", f"{label}: loads accepted a text with a fault at {expect}: {common.short(text, 2000)}")
    elif err is not None:
        if isinstance(err, lark.exceptions.UnexpectedInput):
            mon.count("syntax_errors")
            r = position_problem(text, err)
            if r:
                mon.violation("position", f"{label}: {type(err).__name__} {r}: {common.short(repr(text), 1500)}")
            if expect and (err.line, err.column) != expect:
                mon.violation("wrong place", f"{label}: the fault at {expect} is reported at {(err.line, err.column)}\n{common.short(text, 2500)}")
        elif isinstance(err, lark.exceptions.VisitError):
            mon.count("visit_errors")
            if expect:
                mon.violation("no place", f"{label}: {type(err).__name__} for a fault at {expect}\n{common.short(text, 2500)}")
        else:
            mon.count("other_errors")
            if max(text.count("("), len(text.split())) < 150:
                mon.violation("no place", f"{label}: {type(err).__name__} without a position for {common.short(repr(text), 1500)}")
    elif d is None:
        mon.check(bool(mon.violations), "result", lambda: f"{label}: loads returned None for {common.short(repr(text), 1500)}")
    return t, err, d


RATIO, FLOOR = 22, 0.4


def growth(mon, make, n, label, flags=None):
    """the CPU time of eight times the input"""
    mon.count("growth_pairs")
    small, large = make(n), make(8 * n)
    if len(large) < 3 * len(small):
        return
    scale = len(large) / len(small) / 8
    gc.collect()
    best = None
    for again in range(3):
        a = min(observe(mon, small, label, flags)[0] for _ in range(2))
        b = observe(mon, large, label, flags)[0]
        r = b / max(a, 0.004) / scale
        best = min(best, r) if best is not None else r
        if b < FLOOR or best < RATIO:
            return
    unclosed = large.count("/*", large.rfind("*/") + 1)
    known = unclosed >= 100 and best < 80
    mon.violation("known:unclosed-comment" if known else "growth", f"{label} {flags}: {len(small)} characters took {a:.3f} s and {len(large)} took {b:.3f} s of CPU (least ratio {best:.0f})")


def enum(mon, i):
    t, a = TYPES[i // len(ALPHA)], ALPHA[i % len(ALPHA)]
    T = t.upper()
    observe(mon, f"{T} {a} END", "one token")
    observe(mon, f"{T} {a}", "one token")
    observe(mon, a, "bare token")
    for b in ALPHA:
        observe(mon, f"{T} {a} {b} END", "two tokens", FLAGS[(len(a) + len(b)) % 4])
        if t == "map":
            observe(mon, f"{a} {b}", "bare tokens")
            observe(mon, f"{a}{b}", "glued tokens")


CLASSES = [
    "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", "0123456789", " \t\r\n\f\x0b", "\"'`", "()[]{}", "#/*\\", "%&|!=<>~+-^,.:;@$?_",
    "\x00\x01\x1b\x7f\x85\xa0", "éßÿıİſK", "\u2028\u2029\u200b\ufeff\u3000", "漢字😀\U0010ffff", "\ud800\udfff",
]


def chars(rng):
    n = rng.choice([1, 2, 3, 5, 8, 20, 60, 200])
    cl = rng.sample(CLASSES, rng.randint(1, 5))
    s = "".join(rng.choice(rng.choice(cl)) for _ in range(n))
    x = rng.random()
    if x < 0.4:
        return s
    if x < 0.6:
        return rng.choice(CTX) + s
    if x < 0.8:
        return "MAP NAME " + rng.choice(["", '"', "'", "`", "[", "/", "(", "{", "%"]) + s + " END"
    t = mutate.source(rng)
    k = rng.randrange(len(t) + 1)
    return t[:k] + s + t[k:]


def pump(mon, prefix, rng):
    """anything that has an end, without it: some characters repeated inside, few times (exponential) and many times (quadratic)"""
    units = UNITS + [a + b for a in UNITS for b in UNITS if a != b]
    for u in units:
        big = len(u) == 1 or rng.random() < (0.5 if mon.tier == "thorough" else 0.04)
        mon.count("pumped")
        for x in rng.sample(SUFFIX, 3):
            t, _, _ = observe(mon, prefix + u * 36 + x, "repeated")
            if t > 0.5:
                growth(mon, lambda n: prefix + u * n + x, 12, f"{prefix!r} {u!r} repeated, {x!r}")
        if big:
            v = rng.choice(["", rng.choice(UNITS), rng.choice(UNITS) + rng.choice(UNITS)])
            x = rng.choice(SUFFIX)
            t, _, _ = observe(mon, prefix + (u + v) * (9000 // len(u + v)) + x, "repeated")
            if t > 0.1:
                growth(mon, lambda n: prefix + (u + v) * (n // len(u + v) + 1) + x, 5000, f"{prefix!r} {u + v!r} repeated, {x!r}")


def faults(mon, rng):
    """a syntax error put at a known place of a valid document"""
    g = gen.Gen(rng, "valid", maxdepth=3, kw_p=0.15, avoid_quote='"')
    g.maxblocks = 8
    text = doc.render(g.document(), doc.Style(rng)).text
    d, e = common.try_loads(text)
    if e is not None or "`" in text:
        mon.count("fault_sources_refused")
        return
    try:
        toks, _ = reader.tokenize(text)
    except reader.ReadError:
        mon.count("fault_sources_unread")
        return
    toks = [t for t in toks]
    for _ in range(14):
        x = rng.random()
        flags = rng.choice(FLAGS)
        if x < 0.6:
            j = rng.randrange(1, len(toks))
            at = toks[j].start
            f = rng.choice([")", "]", "}", "=", "&&", ",", "@", "$", "<", "~", "+"])
            t = text[:at] + " \n"[rng.randrange(2)] + f + " " + text[at:]
            at += 1
        elif x < 0.75:
            at = len(text) + 1
            t = text + "\n" + rng.choice(["END", "end", ")", "1", '"s"', "[a]", "NAME 'x'", "TYPE POINT"])
        elif x < 0.9:
            # the outermost block is not closed: the end of the text is reported where its last token is
            j = len(toks) - 1
            if toks[j].text.lower() != "end":
                continue
            t = text[:toks[j].start]
            at = toks[j - 1].start
            if j < 2 or toks[j - 1].text.lower() != "end":
                continue
        else:
            at = 0
            f = rng.choice([")", "1", '"s"', "NAME 'x'", "END", "[a]", "WORD", "/re/", "(1)"])
            t = f + " " + text
        mon.count("faults_located")
        observe(mon, t, "fault", flags, lark_line(t, at))


def unit(job, i, rng, mon):
    if job == "families":
        make = FAMILIES[FAM[i]]
        for f in FLAGS if mon.tier == "thorough" else (FLAGS[0], FLAGS[3]):
            growth(mon, make, 500, FAM[i], f)
        growth(mon, make, 3000, FAM[i], FLAGS[1])
        mon.sample(make(3))
    elif job == "growth":
        if mon.tier == "thorough":
            todo = PAIRS[i * 8:i * 8 + 8]
        else:
            todo = rng.sample(PAIRS, 8)
        for c, r in todo:
            growth(mon, lambda n: c + r * (n // len(r) + 1), 5000, f"{c!r} + {r!r} repeated", rng.choice(FLAGS))
    elif job == "pump":
        pump(mon, OPEN[i], rng)
        if i == 0:
            growth(mon, lambda n: "CLASS TEXT (" + "/*-" * n + ")", 2000, "unclosed comments")
    elif job == "enum":
        enum(mon, i)
    elif job == "enum3":
        for _ in range(40):
            n = rng.choice([3, 3, 4, 5, 6])
            s = " ".join(rng.choice(ALPHA) for _ in range(n))
            t = rng.choice(TYPES).upper()
            observe(mon, rng.choice([f"{t} {s} END", f"{t} {s}", s, f"MAP {t} {s} END END", f"{t} END {s}"]), "tokens", rng.choice(FLAGS))
    elif job == "mutants":
        src = mutate.source(rng)
        for _ in range(12):
            observe(mon, mutate.mutant(rng, src), "mutant", rng.choice(FLAGS))
    elif job == "prefixes":
        src = mutate.source(rng)
        toks = mutate.tokens(src)
        at = 0
        ends = []
        for t in toks:
            at += len(t)
            ends.append(at)
        rng.shuffle(ends)
        for k in ends[:60]:
            observe(mon, src[:k], "prefix")
            observe(mon, src[k:], "suffix", FLAGS[3])
        for _ in range(20):
            k = rng.randrange(len(src) + 1)
            observe(mon, src[:k], "cut")
    elif job == "chars":
        for _ in range(20):
            observe(mon, chars(rng), "characters", rng.choice(FLAGS))
    elif job == "faults":
        faults(mon, rng)
    elif job == "roots":
        t = TYPES[i]
        for case in (t, t.upper(), t.capitalize()):
            for body in ("", "\n", "# c\n", 'NAME "x" ', "/* c */"):
                for f in FLAGS:
                    for text, n in ((f"{case} {body} END", 1), (f" \n{case}\n{body}\nend\n", 1), (f"# c\n{case} {body} END # d", 1),
                                    (f"{case} {body} END {case} {body} END", 2), (f"MAP END {case} {body} END LAYER END", 3)):
                        if t == "symbolset" and n > 1:
                            continue
                        _, e, d = observe(mon, text, "root", f)
                        got = [d] if isinstance(d, dict) else d
                        if e is not None or not got or len(got) != n or {x["__type__"] for x in got} - {t, "map", "layer"}:
                            mon.violation("root", f"{text!r}: {common.where(e) if e else d!r}")
        for _ in range(40):
            g = gen.Gen(rng, "valid", maxdepth=2, kw_p=0.3)
            text = doc.render([g.block(t)], doc.Style(rng)).text
            _, e, d = observe(mon, text, "root")
            if e is not None or d["__type__"] != t:
                mon.violation("root", f"{text!r}: {common.where(e) if e else d!r}")
        mon.count("roots")
    elif job == "corpus":
        fn, text = common.corpus()[i]
        for f in FLAGS:
            observe(mon, text, fn, dict(f, expand_includes=False))
        for _ in range(8):
            observe(mon, mutate.mutant(rng, text, 1), fn, dict(rng.choice(FLAGS), expand_includes=False))
    elif job == "pure":
        cases = []
        for _ in range(120):
            x = rng.random()
            src = mutate.source(rng)
            cases.append([src if x < 0.2 else mutate.mutant(rng, src) if x < 0.7 else
                          rng.choice(TYPES).upper() + " " + " ".join(rng.choice(ALPHA) for _ in range(4)), rng.choice(FLAGS)])
        got = remote.run(cases, {"MAPPYFILE_USE_CYTHON": "0"})
        for (text, f), o in zip(cases, got):
            mon.case(text + "pure")
            mine = list(remote.outcome(text, f))
            mon.check(o[0] != "error", "escaped:pure", lambda: f"without Cython {o} for {common.short(repr(text), 1500)} {f}")
            mon.check(o == mine, "pure", lambda: f"without Cython {common.short(o, 500)}, with {common.short(mine, 500)}: {f} {text!r}")
    elif job == "deep":
        # nested deeper than anyone writes: refused or parsed, at every depth near the limits of recursion
        for k in range(30 if mon.tier == "thorough" else 8):
            n = rng.randrange(60, 1200)
            f = FLAGS[i % 4]
            kind = i // 4
            if kind == 0:
                p = rng.sample(["CLASS", "LAYER", "STYLE", "LABEL", "WEB", "MAP"], rng.randint(1, 3))
                seq = [rng.choice(p) for _ in range(n)]
                text = " ".join(seq) + ' NAME "x" ' + " END" * n
            elif kind == 1:
                text = "CLASS EXPRESSION " + "(" * n + "[a] = 1" + ")" * n + " END"
            else:
                text = "CLASS EXPRESSION (" + rng.choice([" OR ", " AND "]).join(f"[a] = {j}" for j in range(n)) + ") END"
            _, e, d = observe(mon, text, "deep", f)
            if n <= 100 and e is not None:
                mon.violation("deep", f"{n} levels refused: {common.where(e)}: {common.short(text)}")


def killed(total, at):
    total.violation("hang", f"loads did not come back in unit {at}")
