"""C10: expression rewriting preserves structure"""

from __future__ import annotations

import itertools
import re

from mfv import common, doc, expr, gen, mutate, vocab
from mfv.common import mappyfile

PROPERTY = "C10"
LEVEL = "exploration"
RULE = (
    "cases are expressions in Mapfile text. All operator sequences of length 1-2 (and a part of those of length 3, all in the "
    "thorough tier) over the 12 operator classes with and without NOT, ! and unary minus in front of every operand, flat; all "
    "trees of up to 3 operators; random trees to 25 operators with random spacing, operator spellings, redundant brackets and "
    "operands (bindings, strings that look like operators, numbers in odd spellings, calls, lists, regular expressions, "
    "variables); expressions of the corpus. The stored string is read by an independent precedence parser: same tree, same "
    "operand texts, same operator spellings, AND OR NOT upper case; stored strings are fixpoints. Lists, regular expressions, "
    "calls and bindings are compared character by character. Non-trivial: counted by expression text."
)
ASSUMPTIONS = [
    "operators of one level group from the left",
    "NOT binds looser than comparisons as the property states, so NOT [a] = 1 is NOT ([a] = 1)",
]
BIN = ["OR", "AND", "=", "<", ">=", "LIKE", "+", "-", "*", "/", "%", "^"]
PRE = ["", "NOT ", "-", "!"]

SLOTS = [s for t in vocab.SLOTS.values() for s in t.values() if s.cat == "simple" and s.expression]


GLUED = re.compile(r"(?i:\b(?:NOT|AND|OR)(?=[A-Za-z0-9_]))|\[[^\]]*[\s\[][^\]]*\]|\w-|\b\d[\w.]*[A-Za-df-zA-DF-Z_]|[\w\]'\"`]\[|\](?=[\w'\"`])")


def start(tier):
    common.corpus()


def setup(tier):
    common.fast_lark()
    start(tier)


def plan(tier):
    big = tier == "thorough"
    return [
        ("flat", 144, 6),
        ("trees", 120, 6),
        ("random", 20000 if big else 4500, 10),
        ("deep", 40 if big else 40, 1),
        ("verbatim", 400 if big else 300, 4),
        ("corpus", len(common.corpus()), 10),
        ("mutant", 6000 if big else 1000, 10),
        ("slots", len(SLOTS), 4),
    ]


def REQUIRED(tier):
    return {"evaluations": 25000, "flat": 8000, "trees": 1200, "fixpoints": 20000, "lists": 1000, "regexes": 500, "calls": 800,
            "corpus_expressions": 150, "operators": 40000}


SPELL = {"&&": "AND", "||": "OR", "!": "NOT"}


def stored(text, kw="EXPRESSION", block="CLASS"):
    d, e = common.try_loads(f"{block}\n{kw} {text}\nEND")
    return (None if d is None else d.get(kw.lower())), e


def flat_tokens(s):
    """tokens but brackets; brackets of calls stay with the call"""
    return [t[:2] for t in expr.tokens(s) if not (t[0] == "sym" and t[1] in "()")]


def judge(mon, src, got, want, label):
    """got is what loads stored for the source, want its tree"""
    mon.case(src)
    if not isinstance(got, str) or not (got.startswith("(") and got.endswith(")")):
        mon.violation("not-an-expression", f"{label}: {src} became {got!r}")
        return
    try:
        tree = expr.parse(got)
    except expr.ExprError as ex:
        mon.violation("unreadable", f"{label}: {src} became {got!r}: {ex}")
        return
    toks = expr.tokens(got)
    mon.count("operators", sum(1 for t in toks if t[0] in ("op", "cmp") or t[0] == "sym" and t[1] in "+-*/%^"))
    if tree != want:
        mon.violation("structure", f"{label}: {src} became {got!r}\nsource {want}\nstored {tree}")
        return
    for k, s, at in toks:
        if k == "op" and not got.startswith(s, at):
            mon.violation("spelling", f"{label}: {src} became {got!r}: {got[at:at + 4]!r}")
            return
    a, b = flat_tokens(src), flat_tokens(got)
    # unary plus is dropped
    if [t for t in a if t != ("sym", "+")] != [t for t in b if t != ("sym", "+")]:
        mon.violation("operands", f"{label}: {src} became {got!r}\n{a}\n{b}")
        return
    again, e = stored(got)
    mon.count("fixpoints")
    if again != got:
        mon.violation("fixpoint", f"{label}: {src} became {got!r}, which becomes {again!r} {common.where(e) if e else ''}")


def run(mon, src, label, kw="EXPRESSION", block="CLASS", must=True):
    try:
        want = expr.parse(src)
    except expr.ExprError:
        mon.count("unread")
        return
    got, e = stored(src, kw, block)
    if e is not None:
        if must:
            mon.violation("rejected", f"{label}: {block} {kw} {src}: {common.where(e)}")
        else:
            mon.count("rejected")
        return
    judge(mon, src, got, want, label)


# --------------------------------------------------------------------------------------------- exhaustive
def all_trees(n, depth=0):
    """all trees of n operators over one representative of each class"""
    if n == 0:
        yield None
        return
    for op in ("NOT", "NEG"):
        for a in all_trees(n - 1):
            yield (op, a)
    for op in ("OR", "AND", "=", "+", "-", "*", "^"):
        for k in range(n):
            for a in all_trees(k):
                for b in all_trees(n - 1 - k):
                    yield (op, a, b)


def fill(t, names):
    """operands and the form expr knows"""
    if t is None:
        return ("bind", f"[{next(names)}]")
    if t[0] in ("NOT", "NEG"):
        return (t[0], fill(t[1], names))
    if t[0] == "=":
        return ("CMP", "=", fill(t[1], names), fill(t[2], names))
    return (t[0], fill(t[1], names), fill(t[2], names))


def names():
    return iter(["a", "b", "c", "d", "e", "f", "g", "h"])


TREES = []


def trees():
    if not TREES:
        for n in (1, 2, 3):
            TREES.extend(all_trees(n))
    return TREES


def operand(rng):
    x = rng.random()
    if x < 0.3:
        return rng.choice(expr.BINDS)
    if x < 0.5:
        return rng.choice(expr.STRS)
    if x < 0.65:
        return rng.choice(expr.NUMS + ["1e-3", "0001", ".5", "2.", "99999999999999999999", "1.0E+5", "0.10"])
    if x < 0.8:
        return rng.choice(expr.CALLS)
    if x < 0.85:
        return "%var%"
    return "[x]"


PADDED = {"road", "a b", "x:y", "c-d", "Mixed Case", "z"}


def verbatim(mon, rng):
    for _ in range(25):
        n = rng.randint(1, 6)
        els = [rng.choice(["a", "road", "a b", "007", "1.50", "-1", "+2", "1e3", "\"q\"", "'s t'", "x:y", "c-d", "TRUE", "end", "it's",
                           "a/b", "[bind]", "%v%", "/re/", "\"a,b\"", "Mixed Case", "É", "NULL", "layer", ".5", "100000000000000000000",
                           "and", "#"[:0] or "z"]) for _ in range(n)]
        if rng.random() < 0.3:
            # the space around a bare word is part of the element (around a number or a string it is space between two tokens)
            els = [rng.choice(["", "", " ", "  "]) + e + rng.choice(["", "", " ", "   "]) if e in PADDED else e for e in els]
            els = [e.replace("a b", rng.choice(["a b", "a  b"])) for e in els]
        src = "{" + ",".join(els) + "}"
        kw, block = rng.choice([("EXPRESSION", "CLASS"), ("EXPRESSION", "LABEL"), ("FILTER", "LAYER")])
        got, e = stored(src, kw, block)
        mon.count("lists")
        mon.case(src)
        if e is not None:
            mon.violation("rejected", f"list {src}: {common.where(e)}")
        elif got != src:
            mon.violation("list", f"{src} became {got!r}")
        elif stored(got, kw, block)[0] != got:
            mon.violation("fixpoint", f"{src}")
        # inside of an expression
        run(mon, f"([a] IN {src})", "in list", must=True) if all(c not in src for c in "'\"/%[") else None
    for _ in range(12):
        body = "".join(rng.choice(["a", "b", ".", "*", "+", "[0-9]", "(x|y)", "^", "$", "\\d", "\\.", "\\\\", "\\(", " ", "  ", "É", "'", '"', "#", "{2}", ","])
                       for _ in range(rng.randint(1, 7)))
        src = rng.choice([f"/{body}/", f"/{body}/", f"/{body}/i"])
        if src.startswith("/*"):
            continue
        got, e = stored(src, *rng.choice([("EXPRESSION", "CLASS"), ("FILTER", "LAYER")]))
        mon.count("regexes")
        mon.case(src)
        if e is not None:
            mon.violation("rejected", f"regex {src}: {common.where(e)}")
        elif got != src:
            mon.violation("regex", f"{src} became {got!r}")
        if not any(c in body for c in "'\"#") and body.count("(") == body.count(")"):
            src = f"([a] {rng.choice(['~', '~*', '='])} {src})"
            got, e = stored(src)
            if e is not None:
                mon.violation("rejected", f"regex {src}: {common.where(e)}")
            elif "".join(got.split()) != "".join(src.split()):
                mon.violation("regex", f"{src} became {got!r}")
    for _ in range(20):
        args = [rng.choice(["[a]", "[x-y]", "1", "1.50", "007", "-10", "\"%.2f\"", "'POINT (1 2)'", "\"a,b\"", "'(x'", "'#FFF'", "\"#ffAA00\"",
                            "TRUE", "'AND'", "\"it's\"", "%v%", "1e3", "`2020-01-01`"]) for _ in range(rng.randint(1, 4))]
        f = rng.choice(["tostring", "round", "fromText", "myFunc", "f", "ns:fn", "a-b", "length2", "_x", "simplifypt"])
        call = f + "(" + ",".join(args) + ")"
        mon.count("calls")
        for src in (f"({call})", f"([a] = {call})", f"(-{call})", f"({call} + {call})"):
            if src.startswith("(-") and f[0] in "-":
                continue
            got, e = stored(src, "GEOMTRANSFORM", "STYLE") if src == f"({call})" and rng.random() < 0.3 else stored(src)
            mon.case(src)
            if e is not None:
                mon.violation("rejected", f"call {src}: {common.where(e)}")
            elif call not in got:
                mon.violation("call", f"{src} became {got!r}")
            elif src.count(call) == 1 and not src.startswith("(-"):
                judge(mon, src, got, expr.parse(src), "call")
    for _ in range(10):
        b = "[" + "".join(rng.choice("abcXYZ_-:0123456789éÉ") for _ in range(rng.randint(1, 12))) + "]"
        for src, kw, block in ((b, "TEXT", "LABEL"), (b, "SIZE", "STYLE"), (b, "EXPRESSION", "CLASS")):
            got, e = stored(src, kw, block)
            mon.case(src + kw)
            mon.count("bindings")
            mon.check(got == src, "binding", lambda: f"{block} {kw} {src} became {got!r} {e}")
        run(mon, f"({b} = 'x')", "binding")


def expressions_of(text):
    """bracketed expressions in a text, outside of strings and comments"""
    from mfv import reader

    try:
        toks, _ = reader.tokenize(text)
    except reader.ReadError:
        return []
    return [t.text for t in toks if t.cls == "expr"]


def unit(job, i, rng, mon):
    if job == "flat":
        o1, o2 = BIN[i // 12], BIN[i % 12]
        for p in itertools.product(PRE[:3], repeat=3):
            run(mon, f"({p[0]}[a] {o1} {p[1]}[b] {o2} {p[2]}[c])", "flat", must=not any(x == "NOT " for x in p))
            mon.count("flat")
        if i < 12:
            for p in itertools.product(PRE, repeat=2):
                run(mon, f"({p[0]}[a] {BIN[i]} {p[1]}[b])", "flat", must=not any(x in ("NOT ", "!") for x in p))
                mon.count("flat")
        third = itertools.product(BIN, itertools.product(["", "-", "NOT "], repeat=4))
        for n, (o3, p) in enumerate(third):
            if mon.tier != "thorough" and rng.random() > 0.04:
                continue
            ops = [operand(rng) if rng.random() < 0.3 else x for x in ("[a]", "[b]", "[c]", "[d]")]
            run(mon, f"({p[0]}{ops[0]} {o1} {p[1]}{ops[1]} {o2} {p[2]}{ops[2]} {o3} {p[3]}{ops[3]})", "flat",
                must=not any(x == "NOT " for x in p))
            mon.count("flat")
    elif job == "trees":
        ts = trees()
        for n in range(i, len(ts), 120):
            if mon.tier != "thorough" and n > 1500 and rng.random() > 0.6:
                continue
            a = fill(ts[n], names())
            src = "(" + expr.text(a, None) + ")"
            run(mon, src, "tree", must="NOT" not in src or True)
            mon.count("trees")
            run(mon, "(" + expr.text(a, rng, extra=0.3) + ")", "tree with brackets")
    elif job == "random":
        for k in range(8):
            n = rng.choice([1, 2, 3, 4, 6, 10, 25])
            a = expr.boolean(rng, n) if rng.random() < 0.75 else expr.arith(rng, n)
            src = "(" + expr.text(a, rng, extra=rng.choice([0, 0.15, 0.5])) + ")"
            run(mon, src, "random")
            if k == 0:
                mon.sample(src)
            # through the printer too
            got, e = stored(src)
            if got and k == 1:
                out = mappyfile.dumps(common.loads(f"CLASS EXPRESSION {src} END"))
                mon.check(got in out, "printed", lambda: f"{got!r} is not in {out!r}")
    elif job == "deep":
        for n in (20, 60, 90):
            run(mon, "(" * n + "[a] = 1" + ")" * n, "deep brackets")
            run(mon, "(" + " AND ".join(f"[a{k}] = {k}" for k in range(n)) + ")", "long AND")
            run(mon, "(" + " OR ".join(f"[a{k}] = {k} AND NOT [b] = {k}" for k in range(n // 2)) + ")", "long OR")
            run(mon, "(" + " - ".join(f"[a{k}]" for k in range(n)) + ")", "long sum")
            run(mon, "(" + "".join(f"([a{k}] = {k} AND (" for k in range(n // 3)) + "[z] = 1" + "))" * (n // 3) + ")", "right nested")
            run(mon, "(" + "NOT " * 5 + "[a] = 1)", "NOT chain", must=False)
            run(mon, "(" + "- " * 3 + "[a])", "minus chain")
    elif job == "verbatim":
        verbatim(mon, rng)
    elif job == "slots":
        s = SLOTS[i]
        for k in range(6):
            src = "(" + expr.text(expr.boolean(rng, rng.randint(1, 4)), rng) + ")"
            run(mon, src, f"{s.type}.{s.kw}", s.kw.upper(), s.type.upper())
    elif job == "corpus":
        fn, text = common.corpus()[i]
        for src in expressions_of(text):
            mon.count("corpus_expressions")
            run(mon, src, fn, must=False)
    elif job == "mutant":
        for k in range(10):
            a = expr.boolean(rng, rng.choice([1, 2, 3]))
            src = "(" + expr.text(a, rng, extra=0.2) + ")"
            t = mutate.TOKEN.findall(src)
            for _ in range(rng.choice([1, 2])):
                j = rng.randrange(len(t))
                x = rng.random()
                if x < 0.4:
                    del t[j]
                elif x < 0.7:
                    t.insert(j, rng.choice(BIN + ["NOT", "!", "(", ")", "-", "[q]", "1", "'s'"]) + " ")
                else:
                    t[j] = rng.choice(BIN + ["[q]", "'s'"])
                if not t:
                    break
            src = "".join(t)
            # what stands inside a binding is taken as it is, and a word glued to a minus or a bracket can be read as a name
            untouched = all(x in expr.LISTS for x in re.findall(r"\{[^}]*\}?", src))
            if src.startswith("(") and not GLUED.search(src) and untouched:
                run(mon, src, "mutant", must=False)
