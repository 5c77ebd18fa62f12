"""C18: update and the find helpers obey their documented laws"""

from __future__ import annotations

import copy
import itertools
from collections import OrderedDict

from mfv import common, doc, gen, vocab
from mfv.common import mappyfile

PROPERTY = "C18"
LEVEL = "exploration"
RULE = (
    "cases are (target, patch, overwrite) and (items, key, value). update runs on the real objects and on a reference merge "
    "written from the statement; the monitor compares content and key order at every depth, that values not mentioned are the same objects "
    "with the same content, that merged dictionaries keep their class, that the patch is as it was and that d1 itself is returned. find, "
    "findall, findunique and findkey are compared with one-line definitions: the same objects in list order, and every item, the list and the "
    "document exactly as before (no key added). Exhaustive over value kinds x patch kinds x nesting x classes x modes; random nested targets, "
    "patches, histories of patches, and loaded documents. Non-trivial: the patch or key speaks about something; counted by content."
)
ASSUMPTIONS = [
    "not compared: an empty list in a patch, a list of objects onto a list of scalars, __delete__ with a false value, sorting of values of "
    "mixed types, what findkey gives for a path that does not exist",
    "keys asked for in another case are found in Mapfile dictionaries; in plain ones keys are lower case",
]
CLS = None


def start(tier):
    global CLS, DOCS
    from mappyfile.ordereddict import CaseInsensitiveOrderedDict

    CLS = CaseInsensitiveOrderedDict
    common.corpus()


def setup(tier):
    common.fast_lark()
    start(tier)


NX = 48


def plan(tier):
    big = tier == "thorough"
    return [
        ("exhaustive", NX, 2),
        ("random", 40000 if big else 3000, 25),
        ("history", 12000 if big else 800, 10),
        ("loaded", 8000 if big else 500, 5),
        ("find", 40000 if big else 3000, 25),
        ("found", 8000 if big else 500, 5),
        ("corpus", len(common.corpus()), 8),
    ]


def REQUIRED(tier):
    return {"evaluations": 60000, "updates": 50000, "deletions": 10000, "kept_by_overwrite": 8000, "merged_items": 10000, "appended": 3000,
            "skipped_none": 2000, "untouched": 50000, "finds": 20000, "lacking": 9000, "found_some": 8000, "paths": 8000}


# ------------------------------------------------------------------------------------- the reference merge
class Node:
    """a dictionary of the expected result: ordered items, the class it has to have (None: any mapping)"""

    __slots__ = ("cls", "items")

    def __init__(self, cls, items):
        self.cls, self.items = cls, items


class Keep:
    """a value that has to be the very object it was"""

    __slots__ = ("obj", "was")

    def __init__(self, obj):
        self.obj, self.was = obj, common.content(obj)


class Fresh:
    """a value equal to one of the patch"""

    __slots__ = ("was",)

    def __init__(self, obj):
        self.was = common.content(obj)


def low(k):
    return k.lower() if isinstance(k, str) else k


def deletes(v):
    return isinstance(v, dict) and "__delete__" in list(dict.keys(v)) or isinstance(v, str) and v == "__delete__"


def objects(v):
    return isinstance(v, (list, tuple)) and all(x is None or isinstance(x, dict) for x in v)


def merge(d1, d2, overwrite, mon):
    """Node of d1 patched with d2; d1 is None for an object that is new"""
    fold = isinstance(d1, CLS)
    out = {}
    if d1 is not None:
        for k, v in dict.items(d1):
            out[k] = Keep(v)
    for k0, v in dict.items(d2):
        k = low(k0) if fold else k0
        old = dict.get(d1, k) if d1 is not None else None
        exists = d1 is not None and dict.__contains__(d1, k)
        if deletes(v):
            mon.count("deletions")
            out.pop(k, None)
        elif isinstance(v, dict):
            if exists and isinstance(old, dict):
                out[k] = merge(old, v, overwrite, mon)
            elif overwrite or not exists:
                out[k] = merge(None, v, overwrite, mon)
            else:
                mon.count("kept_by_overwrite")
        elif objects(v):
            if exists and isinstance(old, (list, tuple)):
                out[k] = merge_list(old, v, overwrite, mon)
            elif overwrite or not exists:
                out[k] = merge_list([], v, overwrite, mon)
            else:
                mon.count("kept_by_overwrite")
        elif overwrite or not exists:
            out[k] = Fresh(v)
        else:
            mon.count("kept_by_overwrite")
    mon.count("untouched", sum(1 for v in out.values() if type(v) is Keep))
    return Node(type(d1) if d1 is not None else None, out)


def merge_list(old, new, overwrite, mon):
    out = []
    for i in range(max(len(old), len(new))):
        v = new[i] if i < len(new) else None
        if i >= len(old):
            if v is None:
                mon.count("skipped_none")
            elif not deletes(v):
                mon.count("appended")
                out.append(merge(None, v, overwrite, mon))
        elif v is None:
            if i < len(new):
                mon.count("skipped_none")
            out.append(Keep(old[i]))
        elif deletes(v):
            mon.count("deletions")
        else:
            mon.count("merged_items")
            out.append(merge(old[i], v, overwrite, mon))
    return out


def compare(exp, got, path=""):
    if isinstance(exp, Keep):
        if got is not exp.obj:
            return f"{path}: not the value that was there: {common.short(repr(got), 200)}"
        if common.content(got) != exp.was:
            return f"{path}: is not mentioned, but it changed to {common.short(repr(got), 300)}"
        return None
    if isinstance(exp, Fresh):
        if common.content(got) != exp.was:
            return f"{path}: {common.short(repr(got), 200)}, not the value of the patch {common.short(repr(exp.was), 200)}"
        return None
    if isinstance(exp, Node):
        if not isinstance(got, dict):
            return f"{path}: {common.short(repr(got), 200)} is no dictionary"
        if exp.cls is not None and type(got) is not exp.cls:
            return f"{path}: a {exp.cls.__name__} became a {type(got).__name__}"
        items = list(dict.items(got))
        if [k for k, _ in items] != list(exp.items):
            return f"{path}: keys {[k for k, _ in items]}, expected {list(exp.items)}"
        for (k, v), e in zip(items, exp.items.values()):
            r = compare(e, v, f"{path}/{k}")
            if r:
                return r
        return None
    if not isinstance(got, list) or len(got) != len(exp):
        return f"{path}: {common.short(repr(got), 300)}, expected {len(exp)} items"
    for i, (e, v) in enumerate(zip(exp, got)):
        r = compare(e, v, f"{path}[{i}]")
        if r:
            return r
    return None


def apply(mon, d1, d2, overwrite, label, explicit=True):
    """update on the real objects; the result, or None after a violation"""
    was1, was2 = common.content(d1), common.snapshot(d2)
    root = deletes(d2)
    exp = None if root else merge(d1, d2, overwrite, mon)
    got = mappyfile.update(d1, d2, overwrite) if explicit else mappyfile.update(d1, d2)
    mon.count("updates")
    mon.case(repr((was1, was2[0], overwrite)), len(d2) > 0)

    def detail(what):
        return f"{label} overwrite={overwrite}: {what}\nd1 = {was1}\nd2 = {was2[0]}\nresult = {common.content(got)}"

    if common.snapshot(d2) != was2:
        mon.violation("patch-changed", detail("the patch was changed"))
        return None
    if root:
        if not (isinstance(got, dict) and len(got) == 0):
            mon.violation("root-delete", detail("the root was not removed"))
            return None
        return got
    if got is not d1:
        mon.violation("not-d1", detail("the dictionary returned is not d1"))
        return None
    r = compare(exp, got)
    if r:
        mon.violation("merge", detail(r))
        return None
    return got


# ---------------------------------------------------------------------------------------------------- exhaustive
def shapes1():
    """values of the target, made anew each time"""
    return [
        None,  # missing
        lambda c: 1, lambda c: "old", lambda c: [1, 2], lambda c: [[1, 2], [3, 4]], lambda c: c(), lambda c: mk(c, x=1), lambda c: mk(c, x=1, y=[1], z=mk(c, w=1)),
        lambda c: [], lambda c: [mk(c, x=1)], lambda c: [mk(c, x=1), mk(c, x=2, y="s")], lambda c: [mk(c, x=1), mk(c, s=[mk(c, t=1)]), mk(c, x=3)],
        lambda c: None, lambda c: False, lambda c: "__delete__ not", lambda c: "",
    ]


def shapes2():
    return [
        lambda c: 2, lambda c: "new", lambda c: [9], lambda c: [[5, 6]], lambda c: "__delete__", lambda c: {"__delete__": True}, lambda c: {"__delete__": True, "x": 5},
        lambda c: c(), lambda c: mk(c, x=7), lambda c: mk(c, n=1, z=mk(c, w="__delete__", v=2)), lambda c: mk(c, x="__delete__"), lambda c: mk(c, z={"__delete__": True}),
        lambda c: mk(c, z=3, y="__delete__"), lambda c: [mk(c, x=7)], lambda c: [None, mk(c, x=8)], lambda c: [{"__delete__": True}], lambda c: [None, {"__delete__": True}, mk(c, n=1)],
        lambda c: [mk(c, x="__delete__"), None, mk(c, x=5, q=mk(c, r=1))], lambda c: [None, mk(c, s=[mk(c, t=2), mk(c, t=3)])], lambda c: [{"__delete__": True}, {"__delete__": True}],
        lambda c: [None], lambda c: [None, None, None, None, mk(c, far=1)], lambda c: (mk(c, x=1), None), lambda c: True, lambda c: 0, lambda c: "",
        lambda c: [mk(c, s=[None, {"__delete__": True}])], lambda c: [c()], lambda c: mk(c, q=[mk(c, t=1), {"__delete__": True}, None, mk(c, u="__delete__")]),
        lambda c: (1, 2), lambda c: [mk(c, x=1), mk(c, x=2), mk(c, x=3), mk(c, x=4)], lambda c: [{"__delete__": True}, mk(c, x=2)],
    ]


def mk(c, **kw):
    d = c()
    for k, v in kw.items():
        d[k] = v
    return d


def plain():
    return {}


def own():
    return CLS(CLS)


def ownplain():
    return CLS()


def defined(d1, d2):
    """is the merge one the statement settles"""
    fold = isinstance(d1, CLS)
    for k0, v in dict.items(d2):
        k = low(k0) if fold else k0
        old = dict.get(d1, k)
        if deletes(v):
            continue
        if isinstance(v, (list, tuple)) and len(v) == 0:
            return False
        if isinstance(v, dict):
            if not defined(old if isinstance(old, dict) else {}, v):
                return False
        elif objects(v):
            if isinstance(old, (list, tuple)):
                if not all(isinstance(x, dict) for x in old):
                    return False
            else:
                old = []
            for n, x in enumerate(v):
                if x is not None and not deletes(x) and not defined(old[n] if n < len(old) else {}, x):
                    return False
    return True


def exhaustive(mon, i):
    s1, s2 = shapes1(), shapes2()
    n = 0
    for c1, c2 in itertools.product((plain, own, OrderedDict, ownplain), (plain, own, OrderedDict)):
        for a, b in itertools.product(s1, s2):
            for overwrite in (True, False):
                for nest in (0, 1, 2, 3):
                    n += 1
                    if n % NX != i:
                        continue
                    d1, d2 = c1(), c2()
                    t1, t2 = d1, d2
                    if nest == 1:
                        d1["first"], d1["in"], d1["last"] = 0, mk(c1, p=1), [1]
                        d2["in"] = c2()
                        t1, t2 = d1["in"], d2["in"]
                    elif nest == 2:
                        d1["layers"] = [mk(c1, p=1), mk(c1, q=2), mk(c1, r=3)]
                        d2["layers"] = [None, c2()]
                        t1, t2 = d1["layers"][1], d2["layers"][1]
                    elif nest == 3:
                        # new on the side of the target
                        d2["in"] = mk(c2, deeper=c2())
                        t2 = d2["in"]["deeper"]
                        t1 = {}
                    if a is not None:
                        t1["key"] = a(c1)
                    t1["other"] = [{"x": 1}]
                    t2["KEY" if c1 in (own, ownplain) and nest != 3 and n % 2 and c2 is not own else "key"] = b(c2)
                    t2["more"] = 1
                    if not defined(d1, d2):
                        mon.count("undefined")
                        continue
                    if apply(mon, d1, d2, overwrite, f"nest {nest}") is None:
                        return


# -------------------------------------------------------------------------------------------------------- random
KEYS = ["name", "type", "a", "b", "layers", "classes", "metadata", "points", "color", "__type__", "extent", "x", "__position__", "styles"]


def scalar(rng):
    return rng.choice([0, 1, -1, 1.5, True, False, "", "s", "text", "__delete", "__DELETE__", "delete", None, "é"])


def rlist(rng):
    return rng.choice([[1, 2, 3], ["a"], [[0, 1], [2, 3]], (1, 2), [1.5, "x"], ["[a]"], ["__delete__"], [None, 1]])


def target(rng, depth, c=None):
    d = rng.choice([plain, own, own, OrderedDict, ownplain])() if c is None else c()
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        k = rng.choice(KEYS)
        x = rng.random()
        if x < 0.35 or depth == 0:
            d[k] = scalar(rng)
        elif x < 0.45:
            d[k] = rlist(rng)
        elif x < 0.65:
            d[k] = target(rng, depth - 1, c)
        else:
            d[k] = [target(rng, depth - 1, c) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
    return d


def patch(rng, d1, depth, c=None):
    """a patch that mostly speaks about what is there"""
    d = (c or rng.choice([plain, plain, own, OrderedDict]))()
    mixed = isinstance(d1, CLS) and not isinstance(d, CLS)
    known = [k for k in d1] if isinstance(d1, dict) else []
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        k = rng.choice(known) if known and rng.random() < 0.7 else rng.choice(KEYS + ["new", "zz"])
        if not isinstance(k, str):
            continue
        old = dict.get(d1, k) if isinstance(d1, dict) else None
        if mixed and rng.random() < 0.3 and k.lower() not in [x.lower() for x in d]:
            k = rng.choice([k.upper(), k.title()])
        elif mixed and k.lower() in [x.lower() for x in d]:
            continue
        x = rng.random()
        if x < 0.15:
            d[k] = rng.choice(["__delete__", {"__delete__": True}, {"__delete__": True, "x": 1}, {"__delete__": "yes"}, mk(own, __delete__=1)])
        elif isinstance(old, dict) and x < 0.75:
            d[k] = patch(rng, old, depth - 1, c) if depth else {}
        elif isinstance(old, list) and x < 0.8 and (not old or isinstance(old[0], dict)):
            d[k] = [item(rng, o, depth, c) for o in old[:rng.randint(0, len(old))]] + [item(rng, {}, depth, c) for _ in range(rng.choice([0, 0, 1, 2]))]
            if not d[k]:
                d[k] = [None]
            if rng.random() < 0.1:
                d[k] = tuple(d[k])
        elif x < 0.85:
            d[k] = scalar(rng)
        elif x < 0.9:
            d[k] = rlist(rng)
        elif x < 0.95:
            d[k] = patch(rng, {}, depth - 1, c) if depth else {}
        else:
            d[k] = [item(rng, {}, depth, c) for _ in range(rng.choice([1, 2, 3]))]
    return d


def item(rng, old, depth, c):
    x = rng.random()
    if x < 0.3:
        return None
    if x < 0.45:
        return rng.choice([{"__delete__": True}, {"__delete__": True, "name": "x"}, mk(own, __delete__=True)])
    return patch(rng, old, max(0, depth - 1), c) if depth else {"leaf": 1}


# ---------------------------------------------------------------------------------------------------------- find
def lacks(item, key):
    return not dict.__contains__(item, key.lower() if isinstance(item, CLS) else key.lower())


def equal(a, b):
    return a == b


def queries(mon, rng, lst, key, values, label, unique=True, whole=None):
    """all helpers on one list; whole is the object that has to stay as it is"""
    whole = lst if whole is None else whole
    was = common.snapshot(whole)
    k = key.lower()
    have = [x for x in lst if not lacks(x, key)]
    mon.count("lacking", len(lst) - len(have))

    def same(what):
        if common.snapshot(whole) != was:
            mon.violation("items-changed", f"{label}: {what} changed the items\nbefore {common.short(repr(was[0]), 1200)}\nafter  "
                          f"{common.short(repr(common.content(whole)), 1200)}")
            return False
        return True

    def ids(x):
        return [id(y) for y in x]

    for v in values:
        mon.case(repr((common.content(lst), key, repr(v))))
        mon.count("finds", 2)
        many = isinstance(v, (list, tuple, set, frozenset))
        eq = [x for x in have if equal(dict.__getitem__(x, k), v)]
        any_ = [x for x in have if equal(dict.__getitem__(x, k), v) or many and any(equal(dict.__getitem__(x, k), y) for y in v)]
        got = mappyfile.find(lst, key, v)
        mon.count("found_some", bool(eq))
        if got is not (eq[0] if eq else None):
            mon.violation("find", f"{label}: find({key!r}, {v!r}) gave {common.short(repr(got), 300)}\nin {common.short(repr(common.content(lst)), 1500)}")
            return False
        if not same(f"find({key!r}, {v!r})"):
            return False
        got = mappyfile.findall(lst, key, v)
        if not isinstance(got, list) or ids(got) != ids(any_):
            mon.violation("findall", f"{label}: findall({key!r}, {v!r}) gave {len(got)} items {common.short(repr(got), 300)}, expected {len(any_)}\n"
                          f"in {common.short(repr(common.content(lst)), 1500)}")
            return False
        if not same(f"findall({key!r}, {v!r})"):
            return False
    if unique:
        vals = []
        for x in have:
            v = dict.__getitem__(x, k)
            if not any(equal(v, y) for y in vals):
                vals.append(v)
        try:
            exp = sorted(vals)
        except TypeError:
            mon.count("unsortable")
        else:
            if not any(v is None for v in vals):
                got = mappyfile.findunique(lst, key)
                mon.count("uniques")
                if not isinstance(got, list) or got != exp or [type(x) for x in got] != [type(x) for x in exp]:
                    mon.violation("findunique", f"{label}: findunique({key!r}) gave {got!r}, expected {exp!r}\nin {common.short(repr(common.content(lst)), 1500)}")
                    return False
                if not same(f"findunique({key!r})"):
                    return False
    return True


def paths(mon, rng, d, label, n=6):
    """findkey along paths that exist, and beside them"""
    was = common.snapshot(d)
    for _ in range(n):
        x, path, at = d, [], d
        while True:
            if isinstance(x, dict) and len(x) and rng.random() < 0.9:
                k = rng.choice(list(dict.keys(x)))
                at = dict.__getitem__(x, k)
                if isinstance(x, CLS) and isinstance(k, str) and rng.random() < 0.3:
                    k = rng.choice([k.upper(), k.title()])
                    if k.lower() not in x:
                        k = list(x)[0]
                        at = dict.__getitem__(x, k)
            elif isinstance(x, (list, tuple)) and len(x) and rng.random() < 0.8:
                k = rng.randrange(-len(x), len(x))
                at = x[k]
            else:
                break
            path.append(k)
            x = at
        mon.count("paths")
        mon.case(repr((was[0], path)))
        got = mappyfile.findkey(d, *path)
        if got is not x:
            mon.violation("findkey", f"{label}: findkey({path}) gave {common.short(repr(got), 300)}, not {common.short(repr(x), 300)}")
            return False
        # a path that leads nowhere, whatever it gives
        for extra in (["no_such_key"], ["LAYERS"], ["classes", 0], [10**6], ["features", "x"]):
            if isinstance(x, dict) and isinstance(extra[0], str) and dict.__contains__(x, extra[0].lower()):
                continue
            try:
                mappyfile.findkey(d, *(path + extra))
            except Exception:  # noqa: any error will do
                mon.count("nowhere_error")
            mon.count("nowhere")
        if common.snapshot(d) != was:
            mon.violation("findkey-changed", f"{label}: findkey({path}) or beside it changed the document\nbefore {common.short(repr(was[0]), 1200)}\n"
                          f"after  {common.short(repr(common.content(d)), 1200)}")
            return False
    return True


NAMESPACES = [["road", "roads", "Roads", "", "r", "oad", "roads ", "a road"], [0, 1, 2, 10, -1], [1.5, 0.0, 2], [[255, 0, 0], [0, 0, 0], [255, 0]],
              [True, False], [None, "x"], ["1", 1, True, "True"], [{"a": 1}, {"a": 2}], ["é", "É", "e"], [(1, 2), [1, 2]], ["x", ["x"], ["x", "y"]]]


def find_random(mon, rng):
    space = rng.choice(NAMESPACES)
    key = rng.choice(["name", "group", "layers", "classes", "styles", "color", "__type__", "a b", "é"])
    lst = []
    c = rng.choice([plain, own, ownplain, OrderedDict, None])
    for _ in range(rng.choice([0, 1, 2, 4, 8, 20])):
        x = (c or rng.choice([plain, own, ownplain]))()
        if rng.random() < 0.4:
            x["before"] = rng.choice(space)
        if rng.random() < 0.7:
            x[key] = copy.deepcopy(rng.choice(space))
        if rng.random() < 0.4:
            x["after"] = 1
        if rng.random() < 0.15 and lst:
            x = rng.choice(lst)  # the same object again
        lst.append(x)
    asked = rng.choice([key, key.upper(), key.title()])
    if asked.lower() != key:
        asked = key
    values = [copy.deepcopy(rng.choice(space)) for _ in range(4)] + [rng.choice(["missing", 99, None, [], ()])]
    hashable = [v for v in space if not isinstance(v, (list, dict, tuple)) or isinstance(v, tuple) and all(not isinstance(y, list) for y in v)]
    values += [list(space[:2]), tuple(space[1:3]), [space[0]], ["missing"]]
    if hashable:
        values.append(rng.choice([set, frozenset])(rng.sample(hashable, min(2, len(hashable)))))
    return queries(mon, rng, rng.choice([lst, lst, tuple(lst)]), asked, values, "random")


def unit(job, i, rng, mon):
    if job == "exhaustive":
        exhaustive(mon, i)
    elif job == "random":
        for k in range(6):
            depth = rng.choice([0, 1, 2, 3, 4])
            c = rng.choice([None, None, plain, own])
            d1 = target(rng, depth, c)
            d2 = patch(rng, d1, depth, rng.choice([None, plain, own]))
            if rng.random() < 0.02:
                d2["__delete__"] = True
            if not deletes(d2) and not defined(d1, d2):
                mon.count("undefined")
                continue
            if k == 0 and i < 4:
                mon.sample([repr(common.content(d1)), repr(common.content(d2))])
            ow = rng.random() < 0.6
            if apply(mon, d1, d2, ow, "random", not ow or rng.random() < 0.5) is None:
                return
    elif job == "history":
        d1 = target(rng, 3)
        for _ in range(12):
            d2 = patch(rng, d1, 3)
            if not defined(d1, d2):
                continue
            if apply(mon, d1, d2, rng.random() < 0.6, "history") is None:
                return
        mon.count("histories")
    elif job in ("loaded", "found", "corpus"):
        if job == "corpus":
            text = common.corpus()[i][1]
        else:
            g = gen.Gen(rng, rng.choice(["valid", "loose"]), maxdepth=3)
            text = doc.render(g.document("map" if rng.random() < 0.6 else None), doc.Style(rng)).text
        try:
            d = common.quick_loads(text, include_position=rng.random() < 0.2, include_comments=rng.random() < 0.1)
        except common.LARK_ERRORS:
            mon.count("unparseable")
            return
        if not isinstance(d, dict):
            d = CLS(CLS, {"layers": d})
        if job != "loaded":
            found(mon, rng, d)
        if job != "found":
            for _ in range(6):
                if rng.random() < 0.3:
                    g = gen.Gen(rng, "valid", maxdepth=2)
                    d2 = common.loads(doc.render([g.block(d.get("__type__") if d.get("__type__") in vocab.TYPES else "map")], doc.Style(rng)).text)
                else:
                    d2 = patch(rng, d, 4)
                if not defined(d, d2):
                    mon.count("undefined")
                    continue
                if apply(mon, d, d2, rng.random() < 0.6, job) is None:
                    return
    elif job == "find":
        for _ in range(4):
            if not find_random(mon, rng):
                return
        if not paths(mon, rng, target(rng, 4), "random"):
            return


def found(mon, rng, d):
    """the lists of objects of a document, and paths in it"""
    lists = []
    for p, x in common.objects_of(d):
        for k, v in dict.items(x):
            if isinstance(v, list) and v and all(isinstance(y, dict) for y in v):
                lists.append(v)
    for lst in lists[:12]:
        keys = sorted({k for x in lst for k in x if not k.startswith("__pos")})
        for key in rng.sample(keys, min(3, len(keys))) + [rng.choice(["classes", "styles", "group", "points", "layers", "no_such"])]:
            vals = [dict.get(x, key) for x in lst]
            some = [copy.deepcopy(v) for v in vals if v is not None][:3]
            some += [v[:-1] for v in some if isinstance(v, str) and v] + [v.upper() for v in some if isinstance(v, str)] + [some[:2], "nothing"]
            some += [v[0] for v in some if isinstance(v, list) and v]
            if not queries(mon, rng, lst, rng.choice([key, key.upper()]), some, "document", whole=d):
                return
    paths(mon, rng, d, "document", 4)
