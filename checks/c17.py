"""C17: Mapfile dicts behave as case-insensitive, insertion-ordered dicts"""

from __future__ import annotations

import copy
import itertools
import pickle
from collections import OrderedDict

from mfv import common, doc, gen, matrix, vocab
from mfv.common import mappyfile

PROPERTY = "C17"
LEVEL = "exploration"
RULE = (
    "cases are histories: a dictionary (from loads, or the class loads uses with and without a default factory) and a sequence of "
    "operations, each run on it and on a reference model keyed by lower-cased keys. After every operation the monitor compares the "
    "value returned (the same object), the exception, keys, order, len, iteration both ways and membership in every spelling. "
    "Exhaustive: all states reachable over three keys (one an object-list key) x the values, x every operation in every spelling, the "
    "state reached by replaying its history; all sequences of length 3 over a small set; copies of every state by copy, deepcopy and "
    "pickle. Random: long histories over many keys (not ASCII, not strings), every dictionary inside loaded documents, switching to "
    "copies half way with the originals watched. Non-trivial: a history that reads or changes something; counted by history."
)
ASSUMPTIONS = [
    "a missing key that is no object-list key gives and stores what the default factory makes (an empty dictionary), as before",
    "get, membership, pop and setdefault never create anything; without a default factory a missing key is a KeyError",
    "__position__ and __comments__ hold bookkeeping, not Mapfile dictionaries",
]
CLS = None


def start(tier):
    global CLS, STATES, OPS3, DOCS
    from mappyfile.ordereddict import CaseInsensitiveOrderedDict

    CLS = CaseInsensitiveOrderedDict
    STATES = reachable()
    OPS3 = small_ops()
    DOCS = list(matrix.documents())
    common.corpus()


def setup(tier):
    common.fast_lark()
    start(tier)


NSTATE = 64


def plan(tier):
    big = tier == "thorough"
    return [
        ("states", NSTATE, 2),
        ("triples", 96, 4),
        ("fours", 4000 if big else 160, 8),
        ("history", 30000 if big else 2400, 20),
        ("loaded", 12000 if big else 1600, 10),
        ("corpus", len(common.corpus()), 8),
        ("matrix", 145, 10),
        ("lists", 12, 2),
    ]


def REQUIRED(tier):
    return {"evaluations": 100000, "states": 800, "transitions": 100000, "created_lists": 5000, "copies": 5000, "pickled": 2000,
            "key_errors": 5000, "loaded_dicts": 2000, "sequences": 20000}


# ---------------------------------------------------------------------------------------------------- the model
class S(str):
    """a string that is not exactly a str"""


def low(k):
    return str.lower(k) if isinstance(k, str) else k


class New:
    """an expected new empty container"""

    def __init__(self, kind):
        self.kind = kind


class Raise:
    def __init__(self, t):
        self.t = t


NOTHING = object()


class Model:
    """an ordinary dictionary keyed by lower-cased keys"""

    def __init__(self, factory, items=()):
        self.factory = factory
        self.d = {}
        for k, v in items:
            self.d[low(k)] = v

    def step(self, op):
        name, a = op[0], op[1:]
        d = self.d
        if name == "getitem":
            k = low(a[0])
            if k in d:
                return d[k]
            if self.factory is None:
                return Raise(KeyError)
            return New(list if k in vocab.OBJECT_LISTS or self.factory is list else dict)
        if name == "setitem":
            d[low(a[0])] = a[1]
            return None
        if name == "delitem":
            if low(a[0]) not in d:
                return Raise(KeyError)
            del d[low(a[0])]
            return None
        if name in ("contains", "has_key"):
            return low(a[0]) in d
        if name == "get":
            return d.get(low(a[0]), a[1] if len(a) > 1 else None)
        if name == "pop":
            if low(a[0]) in d:
                return d.pop(low(a[0]))
            return a[1] if len(a) > 1 else Raise(KeyError)
        if name == "popkw":
            return d.pop(low(a[0]), a[1])
        if name in ("setdefault", "setdefaultkw"):
            return d.setdefault(low(a[0]), a[1] if len(a) > 1 else None)
        if name == "update":
            kind, pairs, kw = a
            for k, v in list(pairs) + list(kw):
                d[low(k)] = v
            return None
        if name == "updateself":
            return None
        if name == "clear":
            d.clear()
            return None
        if name == "popitem":
            if not d:
                return Raise(KeyError)
            k = list(d)[-1 if a[0] else 0]
            return (k, d.pop(k))
        if name == "ior":
            for k, v in a[0]:
                d[low(k)] = v
            return NOTHING
        raise AssertionError(op)


def perform(x, op):
    name, a = op[0], op[1:]
    if name == "getitem":
        return x[a[0]]
    if name == "setitem":
        x[a[0]] = a[1]
        return None
    if name == "delitem":
        del x[a[0]]
        return None
    if name == "contains":
        return a[0] in x
    if name == "has_key":
        return x.has_key(a[0])
    if name == "get":
        return x.get(*a)
    if name == "pop":
        return x.pop(*a)
    if name == "popkw":
        return x.pop(a[0], default=a[1])
    if name == "setdefault":
        return x.setdefault(*a)
    if name == "setdefaultkw":
        return x.setdefault(a[0], default=a[1])
    if name == "update":
        kind, pairs, kw = a
        return x.update(*([source(kind, pairs)] if kind != "kw" else []), **dict(kw))
    if name == "updateself":
        return x.update(x)
    if name == "clear":
        return x.clear()
    if name == "popitem":
        return x.popitem(last=a[0])
    if name == "ior":
        x |= dict(a[0])
        return NOTHING
    raise AssertionError(op)


class Keyed:
    """something with keys() that is no mapping"""

    def __init__(self, pairs):
        self.d = dict(pairs)

    def keys(self):
        return self.d.keys()

    def __getitem__(self, k):
        return self.d[k]


def source(kind, pairs):
    """the argument of update or of the constructor; kinds made from a dict cannot hold a key twice"""
    if kind == "dict":
        return dict(pairs)
    if kind == "odict":
        return OrderedDict(pairs)
    if kind == "pairs":
        return list(pairs)
    if kind == "tuples":
        return tuple((k, v) for k, v in pairs)
    if kind == "iter":
        return iter(list(pairs))
    if kind == "keyed":
        return Keyed(pairs)
    if kind == "own":
        return CLS(CLS, list(pairs))
    if kind == "ownplain":
        return CLS(None, list(pairs))
    if kind == "zip":
        return zip([k for k, _ in pairs], [v for _, v in pairs])
    raise AssertionError(kind)


KINDS = ["dict", "odict", "pairs", "tuples", "iter", "keyed", "own", "ownplain", "zip"]


class Pair:
    """the dictionary under test with its model, compared after every operation"""

    def __init__(self, mon, real, model, note=""):
        self.mon, self.real, self.model, self.note = mon, real, model, note
        self.log = []
        self.ok = True

    def fail(self, mech, what):
        if self.ok:
            self.mon.violation(mech, f"{self.note}: {what}\nhistory: {common.short(repr(self.log), 1500)}\nmodel: "
                               f"{common.short(shown(self.model.d), 800)}\nfound: {common.short(shown(raw(self.real)), 800)}")
        self.ok = False
        return False

    def op(self, op, full=True):
        mon = self.mon
        self.log.append(brief(op))
        exp = self.model.step(op)
        try:
            got = perform(self.real, op)
        except KeyError as e:
            got = Raise(KeyError)
        mon.count("transitions")
        name = op[0]
        if isinstance(exp, Raise):
            mon.count("key_errors")
            if not isinstance(got, Raise):
                return self.fail(f"{name}-no-error", f"{brief(op)} gave {common.short(repr_(got), 200)} instead of a KeyError")
        elif isinstance(got, Raise):
            return self.fail(f"{name}-error", f"{brief(op)} raised a KeyError")
        elif isinstance(exp, New):
            mon.count("created_lists" if exp.kind is list else "created_dicts")
            if exp.kind is list and (type(got) is not list or got):
                return self.fail("no-new-list", f"{brief(op)} gave {common.short(repr_(got), 200)} instead of a new list")
            if exp.kind is dict and (not isinstance(got, dict) or got):
                return self.fail("no-new-dict", f"{brief(op)} gave {common.short(repr_(got), 200)} instead of a new dictionary")
            if any(got is v for v in self.model.d.values()) or any(got is v for v in BORN[-50:]):
                return self.fail("not-new", f"{brief(op)} gave a container that was there before")
            BORN.append(got)
            if len(BORN) > 200:
                del BORN[:100]
            self.model.d[low(op[1])] = got
        elif name == "popitem":
            if not (type(got) is tuple and got[0] == exp[0] and got[1] is exp[1]):
                return self.fail("popitem-result", f"{brief(op)} gave {common.short(repr_(got), 200)}, not {exp[0]!r}")
        elif got is not exp and not (isinstance(exp, bool) and got == exp and isinstance(got, bool)):
            return self.fail(f"{name}-result", f"{brief(op)} gave {common.short(repr_(got), 200)}, not {common.short(repr_(exp), 200)}")
        return self.compare(full)

    def compare(self, full=True):
        x, d = self.real, self.model.d
        found = raw(x)
        if len(found) != len(d) or any(a[0] != b[0] or type(a[0]) is not type(b[0]) and isinstance(a[0], str) is not isinstance(b[0], str)
                                       or a[1] is not b[1] for a, b in zip(found, d.items())):
            return self.fail("items", "the items are not those of an ordinary dictionary keyed by the lower-cased keys")
        if any(isinstance(k, str) and k != k.lower() for k, _ in found):
            return self.fail("not-lower", "a key is not stored in lower case")
        if not full:
            return True
        keys = list(d)
        if list(x) != keys or list(x.keys()) != keys or list(reversed(x)) != keys[::-1] or len(x) != len(keys):
            return self.fail("iteration", "iteration does not report the keys in their order")
        if any(a is not b for a, b in zip(x.values(), d.values())):
            return self.fail("iteration", "values() differs")
        if bool(x) != bool(d):
            return self.fail("iteration", "truth value differs")
        for k in keys:
            for s in spellings(k):
                if s not in x or x[s] is not d[k] or x.get(s) is not d[k]:
                    return self.fail("spelling", f"{s!r} does not find the value of {k!r}")
        if self.model.factory is not x.default_factory:
            return self.fail("factory", f"the default factory became {x.default_factory!r}")
        return True


BORN = []


def raw(x):
    """the items as stored"""
    return list(OrderedDict.items(x))


def shown(items):
    return repr([(k, repr_(v)[:60]) for k, v in (items.items() if isinstance(items, dict) else items)])


def repr_(v):
    try:
        return repr(v)
    except Exception:  # noqa: repr is written as JSON, which does not know every value
        return f"<{type(v).__name__}>"


def brief(op):
    return repr_(tuple(a if isinstance(a, (str, int, tuple, list)) or a is None else f"<{type(a).__name__}>" for a in op))


def spellings(k):
    if not isinstance(k, str) or not k:
        return [k]
    out = {k, k.upper(), k.title(), S(k), k.swapcase()}
    # only spellings with the same lower case name the same key
    return [s for s in out if s.lower() == k]


# ------------------------------------------------------------------------------------------------------- copies
def mutable_ids(v, out=None):
    out = {} if out is None else out
    if isinstance(v, (dict, list)) and id(v) not in out:
        out[id(v)] = v
        for x in (dict.values(v) if isinstance(v, dict) else v):
            mutable_ids(x, out)
    elif isinstance(v, tuple):
        for x in v:
            mutable_ids(x, out)
    return out


COPIES = ["copy", "copy.copy", "deepcopy"] + [f"pickle{p}" for p in range(pickle.HIGHEST_PROTOCOL + 1)]


def make_copy(x, how):
    if how == "copy":
        return x.copy()
    if how == "copy.copy":
        return copy.copy(x)
    if how == "deepcopy":
        return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x, int(how[6:])))


def structure(v, seen=None):
    """classes, keys, order, values, factories, and which containers are the same object"""
    seen = {} if seen is None else seen
    if isinstance(v, (dict, list)):
        if id(v) in seen:
            return ("again", seen[id(v)])
        seen[id(v)] = len(seen)
    if isinstance(v, dict):
        f = getattr(v, "default_factory", "none")
        return (type(v), f, tuple((repr(k), structure(x, seen)) for k, x in dict.items(v)))
    if isinstance(v, (list, tuple)):
        return (type(v), tuple(structure(x, seen) for x in v))
    return (type(v), repr(v))


def check_copy(p, how):
    """the copy, with a model of its own; both compared"""
    mon, x = p.mon, p.real
    before = structure(x)
    y = make_copy(x, how)
    mon.count("copies")
    if how.startswith("pickle"):
        mon.count("pickled")
    p.log.append(how)
    if y is x:
        p.fail(f"{how}-same", f"{how} gave the dictionary itself")
        return None
    if type(y) is not type(x):
        p.fail(f"{how[:6]}-class", f"{how} gave a {type(y).__name__}")
        return None
    if structure(x) != before:
        p.fail(f"{how[:6]}-changed", f"{how} changed the original")
        return None
    if structure(y) != before:
        p.fail(f"{how[:6]}-differs", f"{how} gave {common.short(repr(structure(y)), 600)}\nof {common.short(repr(before), 600)}")
        return None
    if not recursive(x) and not (y == x and x == y and not y != x):
        p.fail(f"{how[:6]}-unequal", f"{how} is not equal to its original")
        return None
    m = Model(p.model.factory)
    if how in ("copy", "copy.copy"):
        m.d = dict(p.model.d)
    else:
        shared = set(mutable_ids(x)) & set(mutable_ids(y))
        if shared:
            p.fail(f"{how[:6]}-shares", f"{how} shares {len(shared)} containers with the original")
            return None
        m.d = {k: v for k, v in raw(y)}
    q = Pair(mon, y, m, p.note + " " + how)
    q.log = list(p.log)
    return q if q.compare() else None


def recursive(x):
    try:
        repr(structure(x))
        return any(v is x for v in mutable_ids(list(dict.values(x))).values())
    except RecursionError:
        return True


# -------------------------------------------------------------------------------------- exhaustive: three keys
KEYS = ["name", "layers", "k"]
SPELL = {"name": ["name", "NAME", "nAmE"], "layers": ["layers", "LAYERS", "Layers"], "k": ["k", "K"]}
VALUES = [1, None, "text", [], {}]
ALLKEYS = [s for k in KEYS for s in SPELL[k]]


def value(n):
    v = VALUES[n]
    return copy.copy(v)


def state_ops():
    """(op name, spelled keys, value numbers) for one step, as data"""
    ops = []
    for k in ALLKEYS:
        ops += [("getitem", k), ("delitem", k), ("contains", k), ("has_key", k), ("get", k), ("get", k, 1), ("pop", k), ("pop", k, 3), ("popkw", k, 2),
                ("setdefault", k), ("setdefault", k, 4), ("setdefaultkw", k, 0)]
        ops += [("setitem", k, v) for v in range(len(VALUES))]
    for kind in KINDS + ["kw"]:
        for a, b in itertools.permutations(["name", "NAME", "Layers", "K"], 2):
            ops.append(("update", kind, (a, b)))
    ops += [("update", "dict+kw", ("NAME", "name")), ("update", "pairs+kw", ("LAYERS", "K")), ("update", "pairs", ()), ("update", "kw", ()),
            ("updateself",), ("clear",), ("popitem", True), ("popitem", False), ("ior", ("NAME", "k"))]
    return ops


def concrete(op, rng=None):
    """the operation with fresh values"""
    name = op[0]
    if name in ("get", "pop", "popkw", "setdefault", "setdefaultkw", "setitem") and len(op) == 3:
        return (name, op[1], value(op[2]))
    if name == "update":
        kind, keys = op[1], op[2]
        pairs = [(k, value(n)) for n, k in enumerate(keys)]
        if kind.endswith("+kw"):
            return (name, kind[:-3], pairs[:1], pairs[1:])
        if kind == "kw":
            return (name, kind, [], pairs)
        return (name, kind, pairs, [])
    if name == "ior":
        return (name, [(k, value(n)) for n, k in enumerate(op[1])])
    return op


def reachable():
    """[(factory?, history)] of one shortest history for every reachable (order of keys, shape of values)"""
    out = []
    writes = [("setitem", k, v) for k in ("NAME", "layers", "K") for v in range(len(VALUES))] + [("getitem", "LAYERS"), ("getitem", "K")]
    for fac in (True, False):
        seen = {(): ()}
        todo = [()]
        while todo:
            nxt = []
            for st in todo:
                h = seen[st]
                for op in writes:
                    k = low(op[1])
                    if op[0] == "getitem":
                        if not fac or k in dict(st):
                            continue
                        s2 = st + ((k, "new"),)
                    elif k in dict(st):
                        continue  # no other order; the same values as set at once
                    else:
                        s2 = st + ((k, op[2]),)
                    if s2 not in seen:
                        seen[s2] = h + (op,)
                        nxt.append(s2)
            todo = nxt
        out += [(fac, h) for h in seen.values()]
    return out


def small_ops():
    return [("getitem", "LAYERS"), ("getitem", "K"), ("setitem", "NAME", 0), ("setitem", "name", 3), ("setitem", "Layers", 2), ("delitem", "NaMe"),
            ("delitem", "layers"), ("pop", "NAME"), ("pop", "k", 1), ("pop", "LAYERS", 1), ("setdefault", "NAME", 3), ("setdefault", "lAyers"),
            ("get", "LAYERS"), ("contains", "NAME"), ("update", "dict", ("NAME", "LAYERS")), ("update", "pairs", ("K", "k")),
            ("update", "kw", ("Name", "K")), ("updateself",), ("popitem", False), ("copy",), ("deepcopy",), ("pickle2",)]


def fresh(mon, fac, note=""):
    f = CLS if fac else None
    return Pair(mon, CLS(f) if fac else CLS(), Model(f), note or ("with" if fac else "without") + " a factory")


def apply(p, op):
    """p, or the copy that the history goes on with; None after a violation"""
    if op[0] in COPIES:
        return check_copy(p, op[0])
    return p if p.op(concrete(op)) else None


def unit(job, i, rng, mon):
    if job == "states":
        ops = state_ops()
        for fac, h in STATES[i::NSTATE]:
            mon.count("states")
            for op in ops:
                p = fresh(mon, fac)
                for s in h:
                    if not p.op(concrete(s), full=False):
                        return
                if not p.op(concrete(op)):
                    return
                mon.case(repr((fac, h, op)))
            for how in COPIES:
                p = fresh(mon, fac)
                for s in h:
                    p.op(concrete(s), full=False)
                q = check_copy(p, how)
                if q is None:
                    return
                mon.case(repr((fac, h, how)))
                for op in rng.sample(ops, 12):
                    if not q.op(concrete(op)) or not p.compare(False):
                        if p.ok:
                            p.fail("aliased", "the original changed with its copy")
                        return
            # constructed at once
            if not any(s[0] == "getitem" for s in h):
                for kind in KINDS:
                    if not construct(mon, rng, fac, kind, [(s[1], value(s[2])) for s in h], []):
                        return
    elif job == "triples":
        n = len(OPS3)
        seqs = itertools.product(range(n), repeat=3)
        for seq in itertools.islice(seqs, i, None, 96):
            if not sequence(mon, seq, i % 2 == 0 or seq[0] % 2 == 0):
                return
            if not sequence(mon, seq, not (i % 2 == 0 or seq[0] % 2 == 0)):
                return
    elif job == "fours":
        n = len(OPS3)
        for _ in range(200):
            if not sequence(mon, tuple(rng.randrange(n) for _ in range(rng.choice([4, 4, 5, 6]))), rng.random() < 0.6):
                return
    elif job == "history":
        for k in range(4):
            history(mon, rng, i)
    elif job == "loaded":
        g = gen.Gen(rng, rng.choice(["valid", "loose"]), maxdepth=3, multiline=True)
        text = doc.render(g.document(), doc.Style(rng)).text
        loaded(mon, rng, text)
    elif job == "corpus":
        loaded(mon, rng, common.corpus()[i][1])
    elif job == "matrix":
        for label, items, slot, it in DOCS[i * 10:i * 10 + 10]:
            loaded(mon, rng, doc.render(items, doc.Style(rng)).text, 1)
    elif job == "lists":
        lists(mon, rng, i)


def sequence(mon, seq, fac):
    p = fresh(mon, fac)
    mon.count("sequences")
    mon.case(f"{fac}{seq}")
    for n in seq:
        p = apply(p, OPS3[n])
        if p is None:
            return False
    return True


def construct(mon, rng, fac, kind, pairs, kw):
    f = CLS if fac else None
    args = [] if kind == "none" else [source(kind, pairs)]
    x = CLS(f, *args, **dict(kw))
    m = Model(f, list(dict(pairs).items() if kind in ("dict", "odict", "keyed") else pairs) + list(kw))
    p = Pair(mon, x, m, f"constructed from {kind}")
    p.log.append((kind, [k for k, _ in pairs], [k for k, _ in kw]))
    mon.count("constructed")
    mon.case(repr((fac, kind, [k for k, _ in pairs], [k for k, _ in kw])))
    return p.compare()


# --------------------------------------------------------------------------------------------- random histories
POOL = ["name", "Name", "NAME", "layers", "LAYERS", "Classes", "styles", "points", "metadata", "__type__", "__TYPE__", "config", "a b", "", "É", "é",
        "STRASSE", "straße", "STRAßE", "İ", "i̇", "ΑΣ", "ας", "ΑΣΑ", "ß", "ẞ", "ǅ", "Dž", "ﬀ", "K", "k", "\u212a", "0", "x" * 40, "X" * 40, "self", "e",
        "E", "default_factory", "key", "keys", "items", "features", "Maps", "joins", "labels", "_k", "ms_errorfile", "MS_ERRORFILE", "%s", "\n"]
OTHER = [0, 1, -1, None, True, (1, 2), ("A",), 1.5, frozenset("A"), b"A", b"a"]


def rkey(rng):
    x = rng.random()
    if x < 0.08:
        return rng.choice(OTHER)
    k = rng.choice(POOL)
    if x < 0.4:
        k = "".join(rng.choice([c.upper(), c.lower(), c]) for c in k)
    return S(k) if x > 0.95 else k


def rval(rng):
    x = rng.random()
    if x < 0.4:
        return rng.choice([0, 1, "", "v", None, True, 2.5])
    if x < 0.6:
        return [rng.randrange(5)]
    if x < 0.7:
        return {"K": [1], "k": 2}
    if x < 0.9:
        return CLS(CLS, [("Inner", [1]), ("__type__", "layer")])
    return CLS(None, {"X": {"Y": [1]}})


def rop(rng, kw_ok=True):
    n = rng.choice(["getitem"] * 4 + ["setitem"] * 5 + ["delitem", "delitem", "contains", "has_key", "get", "get2", "pop", "pop", "pop2", "popkw",
                    "setdefault", "setdefault2", "setdefaultkw", "update", "update", "update", "updateself", "popitem", "ior", "copy"] + ["clear"] * (rng.random() < 0.05))
    k = rkey(rng)
    if n in ("get2", "pop2", "setdefault2"):
        return (n[:-1], k, rval(rng))
    if n in ("setitem", "popkw", "setdefaultkw"):
        return (n, k, rval(rng))
    if n == "update":
        kind = rng.choice(KINDS + ["kw"])
        pairs = [(rkey(rng), rval(rng)) for _ in range(rng.choice([0, 1, 2, 3, 6]))]
        if kind in ("dict", "odict", "keyed"):
            pairs = list(dict(pairs).items())
        if kind in ("own", "ownplain"):
            seen = {}
            for a, v in pairs:
                seen[low(a)] = v
            pairs = list(seen.items())
        kw = {}
        if rng.random() < 0.4 or kind == "kw":
            for _ in range(rng.choice([1, 2, 3])):
                a = rng.choice([x for x in POOL if x.isidentifier()])
                kw[str(rng.choice([a, a.upper(), a.title()]))] = rval(rng)
        return ("update", kind, [] if kind == "kw" else pairs, list(kw.items()))
    if n == "popitem":
        return (n, rng.random() < 0.5)
    if n == "ior":
        return (n, list({rkey(rng): rval(rng) for _ in range(3)}.items()))
    if n == "copy":
        return (rng.choice(COPIES),)
    if n in ("updateself", "clear"):
        return (n,)
    return (n, k)


def history(mon, rng, i, p=None, length=None):
    if p is None:
        f = rng.choice([CLS, CLS, CLS, None, None, list, dict])
        if rng.random() < 0.5:
            p = Pair(mon, CLS(f), Model(f), f"factory {f}")
        else:
            pairs = [(rkey(rng), rval(rng)) for _ in range(rng.randrange(8))]
            kind = rng.choice(KINDS)
            if kind in ("dict", "odict", "keyed"):
                pairs = list(dict(pairs).items())
            kw = [(k, rval(rng)) for k in rng.sample(["a", "A", "Name", "NAME", "layers"], rng.randrange(3))]
            p = Pair(mon, CLS(f, source(kind, pairs), **dict(kw)), Model(f, pairs + kw), f"constructed from {kind} {[k for k, _ in pairs]} {kw}")
            if not p.compare():
                return False
    watched = []
    for n in range(length or rng.choice([10, 30, 60])):
        op = rop(rng)
        if op[0] in COPIES:
            q = check_copy(p, op[0])
            if q is None:
                return False
            if rng.random() < 0.5:
                q, p = p, q
            watched.append((q, structure(q.real)))
        elif not p.op(op, full=n % 7 == 0):
            return False
    if not p.compare():
        return False
    for q, s in watched:
        # copies share values (copy) but not entries; whatever was read through compare() exists already
        if not q.compare():
            return False
    mon.count("histories")
    mon.case(repr(p.log))
    return True


def loaded(mon, rng, text, dicts=3):
    """every dictionary of a loaded document"""
    flags = {"include_position": rng.random() < 0.3, "include_comments": rng.random() < 0.2}
    try:
        d = common.quick_loads(text, **flags)
    except common.LARK_ERRORS:
        mon.count("unparseable")
        return
    found = []

    def go(x, path):
        if isinstance(x, dict):
            found.append((path, x))
            for k, v in dict.items(x):
                if k not in ("__position__", "__comments__"):
                    go(v, path + (k,))
        elif isinstance(x, (list, tuple)):
            for n, v in enumerate(x):
                go(v, path + (n,))

    go(d, ())
    mon.count("loaded_dicts", len(found))
    for path, x in found:
        if not isinstance(x, CLS):
            mon.violation("class", f"{path} is a {type(x).__name__}\n{text}")
            return
        if x.default_factory is None:
            mon.violation("class", f"{path} has no default factory\n{text}")
            return
        p = Pair(mon, x, Model(x.default_factory, raw(x)), f"loaded {path}")
        if not p.compare():
            return
    # copies of the whole
    if isinstance(d, dict):
        for how in rng.sample(COPIES, 3):
            p = Pair(mon, d, Model(d.default_factory, raw(d)), "loaded")
            q = check_copy(p, how)
            if q is None:
                return
            if how not in ("copy", "copy.copy"):
                # the copy prints the same, and changing all of it leaves the original alone
                s = structure(d)
                for y in list(mutable_ids(q.real).values()):
                    if isinstance(y, dict):
                        y["ZZ"] = 1
                        if isinstance(y, CLS):
                            y["Layers"]
                    else:
                        y.append("zz")
                if structure(d) != s:
                    p.fail(f"{how[:6]}-shares", f"changing the result of {how} changed the original")
                    return
    mon.case(text)
    for path, x in rng.sample(found, min(dicts, len(found))):
        q = Pair(mon, x, Model(x.default_factory, raw(x)), f"loaded {path}")
        if not history(mon, rng, 0, q, 15):
            return


def lists(mon, rng, i):
    """every object-list key in every spelling, on every kind of dictionary of loads"""
    texts = [f"{t.upper()}\nEND" for t in vocab.ROOT_TYPES] + [
        "MAP\n WEB METADATA 'a' 'b' END VALIDATION 'x' 'y' END END\n CONFIG 'a' 'b'\n SYMBOL NAME 'x' END\n END",
        "LAYER CONNECTIONOPTIONS 'a' 'b' END SCALETOKEN NAME '%x%' VALUES '0' 'a' END END CLASS STYLE END LABEL END END CLUSTER END GRID END END"]
    for text in texts[i::12]:
        d0 = common.loads(text)
        for how in [None, "deepcopy", "copy", "pickle2", "pickle5"]:
            d = d0 if how is None else make_copy(copy.deepcopy(d0), how)
            for x in list(mutable_ids(d).values()):
                if not isinstance(x, dict):
                    continue
                for k in sorted(vocab.OBJECT_LISTS):
                    for s in spellings(k) + [k.capitalize()]:
                        y = copy.deepcopy(x)
                        p = Pair(mon, y, Model(y.default_factory, raw(y)), f"{text} {how}")
                        if not p.op(("contains", s)) or not p.op(("get", s)) or not p.op(("getitem", s)) or not p.op(("getitem", k.upper())):
                            return
                        y[s].append(1)
                        if not p.compare():
                            return
                        mon.case(repr((text, how, s)))
