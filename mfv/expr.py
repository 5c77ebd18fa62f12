"""
Independent reader of MapServer logical expressions.

Precedence (the one property C10 states): OR < AND < NOT < comparison < + - <
* / % ^ and unary minus, binary operators left associative, brackets override.

Redundant brackets are dropped from the AST; && || ! are canonicalised to
AND OR NOT; everything else (operator spellings, operand texts) is kept verbatim.
"""
import re

CMP_WORDS = {"IN", "EQ", "NE", "LT", "LE", "GT", "GE", "LIKE"}
CMP_SYMS = [">=", "<=", "==", "!=", "=*", "~*", "=", "<", ">", "~"]

TOKEN = re.compile(
    r"""
    (?P<ws>\s+)
  | (?P<str>"(?:\\"|[^"])*"i?|'(?:\\'|[^'])*'i?|`[^`]*`i?)
  | (?P<num>(?:[0-9]+\.[0-9]*|\.[0-9]+|[0-9]+)(?:[eE][-+]?[0-9]+)?(?![A-Za-z_]))
  | (?P<bind>\[[^\]]*\])
  | (?P<rt>%[A-Za-z_][^%\s]*%)
  | (?P<list>\{[^}]*\})
  | (?P<sym>>=|<=|==|!=|=\*|~\*|&&|\|\||[=<>~!()+\-*/%^,])
  | (?P<word>[A-Za-z0-9_:\xc0-\xff]+)
    """,
    re.X,
)


class ExprError(ValueError):
    pass


def tokens(text):
    out = []
    i = 0
    while i < len(text):
        # a regular expression can only follow a comparison operator
        if text[i] == "/" and out and out[-1][0] == "cmp":
            m = re.compile(r"/[^/\n]*/i?").match(text, i)
            if m:
                out.append(("regex", m.group(), i))
                i = m.end()
                continue
        m = TOKEN.match(text, i)
        if not m:
            raise ExprError(f"cannot read {text[i:i+20]!r}")
        k, s = m.lastgroup, m.group()
        i = m.end()
        if k == "ws":
            continue
        if k == "word":
            u = s.upper()
            if u in ("AND", "OR", "NOT"):
                k, s = "op", u
            elif u in CMP_WORDS:
                k = "cmp"
        elif k == "sym":
            if s in CMP_SYMS:
                k = "cmp"
            elif s in ("&&", "||", "!"):
                k, s = "op", {"&&": "AND", "||": "OR", "!": "NOT"}[s]
        out.append((k, s, m.start()))
    return out


class P:
    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0
        self.text = text

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None, None)

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def is_(self, k, s):
        a, b, _ = self.peek()
        return a == k and b == s

    def expect(self, k, s):
        if not self.is_(k, s):
            raise ExprError(f"expected {s} at {self.peek()} in {self.text!r}")
        self.i += 1

    def or_(self):
        a = self.and_()
        while self.is_("op", "OR"):
            self.i += 1
            a = ("OR", a, self.and_())
        return a

    def and_(self):
        a = self.not_()
        while self.is_("op", "AND"):
            self.i += 1
            a = ("AND", a, self.not_())
        return a

    def not_(self):
        if self.is_("op", "NOT"):
            self.i += 1
            return ("NOT", self.not_())
        return self.cmp()

    def cmp(self):
        a = self.sum()
        while self.peek()[0] == "cmp":
            op = self.next()[1]
            # the right operand of a comparison can be NOT x in odd inputs
            a = ("CMP", op, a, self.sum())
        return a

    def sum(self):
        a = self.prod()
        while self.peek()[0] == "sym" and self.peek()[1] in "+-":
            op = self.next()[1]
            a = (op, a, self.prod())
        return a

    def prod(self):
        a = self.unary()
        while self.peek()[0] == "sym" and self.peek()[1] in ("*", "/", "%", "^"):
            op = self.next()[1]
            a = (op, a, self.unary())
        return a

    def unary(self):
        if self.is_("sym", "-"):
            self.i += 1
            a = self.unary()
            if a[0] == "num":
                t = a[1]
                return ("num", t[1:] if t.startswith("-") else "-" + t)
            return ("NEG", a)
        if self.is_("sym", "+"):
            self.i += 1
            return self.unary()
        return self.atom()

    def atom(self):
        k, s, pos = self.next()
        if k == "sym" and s == "(":
            a = self.or_()
            self.expect("sym", ")")
            return a
        if k == "num":
            return ("num", s)
        if k == "bind":
            return ("bind", s)
        if k in ("str", "regex", "list", "rt"):
            return (k, s)
        if k == "word":
            if self.is_("sym", "("):
                # the arguments are kept verbatim: find the closing bracket
                depth = 0
                j = self.i
                while j < len(self.t):
                    if self.t[j][0] == "sym" and self.t[j][1] == "(":
                        depth += 1
                    if self.t[j][0] == "sym" and self.t[j][1] == ")":
                        depth -= 1
                        if depth == 0:
                            break
                    j += 1
                else:
                    raise ExprError(f"unclosed call in {self.text!r}")
                args = tuple(x[:2] for x in self.t[self.i + 1 : j])
                self.i = j + 1
                return ("call", s, args)
            return ("word", s)
        raise ExprError(f"unexpected {s!r} at {pos} in {self.text!r}")


def parse(text):
    p = P(text)
    a = p.or_()
    if p.i != len(p.t):
        raise ExprError(f"trailing input at {p.peek()} in {text!r}")
    return a


def size(a):
    return 1 + sum(size(x) for x in a[1:] if isinstance(x, tuple) and x and isinstance(x[0], str) and a[0] not in ("call",))


# ---------------------------------------------------------------- generation

BINDS = ["[a]", "[POP]", "[name_1]", "[x-y]", "[ogr:geom]", "[É1]"]
STRS = ['"x"', "'y z'", "`2020-01-01`", '"it\'s"', "'say \"hi\"'", '""', "''",
        '"a AND b"', "'(1 + 2)'", '"[a]"', "'%x%'", '"a,b"', "`a OR b`", '"é"', '"x"i', "'Y'i",
        '"#1"', '"/a/"', '"{a}"']
NUMS = ["0", "1", "42", "3.5", "0.25", "1000000", "1e3", "2.0", "007", "1.50"]
CALLS = [
    'tostring([a],"%.2f")', "length([name])", 'upper([POP])', "round([a],10)",
    'area([shape])', "commify('123')", "dwithin([shape],fromtext('POINT(1 1)'),10)",
    "buffer([shape],-5)", 'initcap("x y")', "firstcap([a])", "fromText('POINT (1 2)')",
    "f([a],[b],\"c\",4)",
]
CALLS = [c for c in CALLS if c.count("(") == 1 or "'" in c and "dwithin" not in c]
LISTS = ["{a,b}", "{1,2,3}", "{road}", "{x y,z}", "{1.50,2}"]
REGEXES = ["/ab.*/", "/^x$/i", "/a b/", "/[0-9]+/", "/(a|b)/"]
CMP_OPS = ["=", "==", "!=", "<", "<=", ">", ">=", "~", "~*", "=*",
           "IN", "EQ", "NE", "LT", "LE", "GT", "GE", "LIKE",
           "in", "eq", "ne", "lt", "le", "gt", "ge", "like", "Eq"]
AND_OPS = ["AND", "&&", "and", "And"]
OR_OPS = ["OR", "||", "or"]
NOT_OPS = ["NOT ", "!", "not ", "NOT  "]
ARITH = ["+", "-", "*", "/", "%", "^"]

PREC = {"OR": 1, "AND": 2, "NOT": 3, "CMP": 4, "+": 5, "-": 5,
        "*": 6, "/": 6, "%": 6, "^": 6, "NEG": 7}


def operand(rng):
    r = rng.random()
    if r < 0.4:
        return ("bind", rng.choice(BINDS))
    if r < 0.65:
        return ("str", rng.choice(STRS))
    if r < 0.85:
        return ("num", rng.choice(NUMS))
    return parse(rng.choice(CALLS))


def arith(rng, n):
    if n <= 0:
        return operand(rng)
    r = rng.random()
    if r < 0.2:
        return ("NEG", arith(rng, n - 1))
    k = rng.randint(0, n - 1)
    return (rng.choice(ARITH), arith(rng, k), arith(rng, n - 1 - k))


def boolean(rng, n):
    """a random tree with n operators"""
    if n <= 1:
        op = rng.choice(CMP_OPS)
        left = arith(rng, rng.choice([0, 0, 0, 1, 2]))
        if op.upper() == "IN" and rng.random() < 0.6:
            return ("CMP", op, left, ("list", rng.choice(LISTS)))
        if op in ("~", "~*") and rng.random() < 0.6:
            return ("CMP", op, left, ("regex", rng.choice(REGEXES)))
        return ("CMP", op, left, arith(rng, rng.choice([0, 0, 0, 1, 2])))
    r = rng.random()
    if r < 0.2:
        return ("NOT", boolean(rng, n - 1))
    if r < 0.3:
        k = rng.randint(0, n - 1)
        return ("CMP", rng.choice(CMP_OPS[:7]), arith(rng, k), arith(rng, n - 1 - k))
    k = rng.randint(1, n - 1)
    return (rng.choice(["AND", "OR"]), boolean(rng, k), boolean(rng, n - k))


def canon(a):
    """NEG of a number is the negative number; canonical AST for comparisons"""
    if a[0] in ("OR", "AND") or a[0] in ARITH:
        return (a[0], canon(a[1]), canon(a[2]))
    if a[0] == "NOT":
        return ("NOT", canon(a[1]))
    if a[0] == "NEG":
        x = canon(a[1])
        if x[0] == "num":
            return ("num", x[1][1:] if x[1].startswith("-") else "-" + x[1])
        return ("NEG", x)
    if a[0] == "CMP":
        return ("CMP", a[1], canon(a[2]), canon(a[3]))
    return a


def _atom_text(a):
    if a[0] == "call":
        out = a[1] + "("
        return out + "".join(x[1] for x in a[2]) + ")"
    return a[1]


def has_mod(a):
    """does an unbracketed product contain %?  (see C10: excluded mix with ^)"""
    return a[0] == "%" or (a[0] in ("*", "/", "^") and (has_mod(a[1])))


def text(a, rng=None, extra=0.15, parent=0, right=False, sp=None):
    """
    write an AST; brackets where precedence needs them, and (with a random
    generator) where it does not
    """
    if sp is None:
        sp = (lambda: " ") if rng is None else (
            lambda: rng.choice([" ", " ", " ", "  ", "\t", "\n"]))
    k = a[0]
    if k in ("OR", "AND"):
        op = k if rng is None else rng.choice(AND_OPS if k == "AND" else OR_OPS)
        s = text(a[1], rng, extra, PREC[k], False, sp) + sp() + op + sp() + text(
            a[2], rng, extra, PREC[k], True, sp)
        p = PREC[k]
    elif k == "NOT":
        op = "NOT " if rng is None else rng.choice(NOT_OPS)
        s = op + text(a[1], rng, extra, PREC[k], False, sp)
        p = PREC[k]
    elif k == "CMP":
        s = text(a[2], rng, extra, 4, False, sp) + sp() + a[1] + sp() + text(
            a[3], rng, extra, 4, True, sp)
        p = 4
    elif k in ARITH:
        s = text(a[1], rng, extra, PREC[k], False, sp) + sp() + k + sp() + text(
            a[2], rng, extra, PREC[k], True, sp)
        p = PREC[k]
        if parent == p and k != "+" and not right and (k == "%" or has_mod(a[1])):
            pass
    elif k == "NEG":
        s = "-" + text(a[1], rng, extra, 8, False, sp)
        p = 7
    else:
        s = _atom_text(a)
        p = 9
    need = p < parent or (p == parent and right)
    if k == "NOT" and parent >= 3:
        need = True
    if k == "NEG" and parent == 8:
        need = True
    redundant = rng is not None and rng.random() < extra and k not in ("list", "regex")
    if need or redundant:
        pad = "" if rng is None else rng.choice(["", "", " "])
        s = "(" + pad + s + pad + ")"
        if redundant and rng.random() < 0.1:
            s = "(" + s + ")"
    return s
