"""C12: calls are pure, history-independent and safe to run concurrently"""

from __future__ import annotations

import copy
import hashlib
import io
import json
import os
import random
import re
import subprocess
import sys
import threading
import time

from mfv import common, doc, gen, mutate, remote, vocab
from mfv.common import mappyfile
from mfv.runner import REPO, ROOT

PROPERTY = "C12"
LEVEL = "exploration"
RULE = (
    "cases are calls. Purity: classes, keys in order, values and container identities of every argument are recorded before and "
    "after each call of dumps, dump, save, validate, find, findall, findunique, findkey on loaded, created and edited dictionaries, "
    "refused values included; changing one result never shows in another. History: one Parser, MapfileToDict, PrettyPrinter and "
    "Validator driven through sequences of documents (accepted, refused, with comments, positions, includes whose files change, "
    "other working directories and versions) against fresh objects. Concurrency: threads run one set of calls in different orders "
    "on shared arguments, with a switch interval of a microsecond and pauses injected at lines of mappyfile; every result must "
    "equal the sequential one. The evidence counts overlapping pairs of calls and places where control moved between threads. "
    "Other processes with other hash seeds must agree. Non-trivial: counted by (call, argument)."
)
ASSUMPTIONS = [
    "Lark reads its parse tables from its own cache file in most runs (parsers are not shared); job 'plain' does without",
]
UNIT_LIMIT = 120


def start(tier):
    common.corpus()
    # a working folder of this process, as some units change it
    os.chdir(common.scratch())


def setup(tier):
    common.fast_lark(share=False)
    common.corpus()


def plan(tier):
    big = tier == "thorough"
    return [
        ("threads", 240 if big else 14, 1),
        ("purity", 1500 if big else 70, 2),
        ("history", 600 if big else 40, 1),
        ("files", 120 if big else 6, 1),
        ("isolation", 400 if big else 16, 1),
        ("plain", 8 if big else 1, 1),
        ("seeds", 40 if big else 4, 1),
        ("refused", 120 if big else 16, 1),
        ("orders", 60 if big else 6, 1),
        ("reused", 240 if big else 16, 1),
    ]


def REQUIRED(tier):
    return {"evaluations": 4500, "snapshots": 2500, "history_steps": 400, "overlapping_pairs": 500, "switches": 3000,
            "calls_in_threads": 2000, "files_changed": 15, "ordered_calls": 800}


def document(rng, depth=2):
    x = rng.random()
    if x < 0.15:
        for _ in range(5):
            fn, text = rng.choice(common.corpus())
            if len(text) < 4000:
                return text
    g = gen.Gen(rng, rng.choice(["valid", "loose"]), maxdepth=depth, kw_p=0.12, avoid_quote="'\"")
    g.maxblocks = 7
    return doc.render(g.document(), doc.Style(rng, comments=rng.random() < 0.5)).text


def any_text(rng):
    t = document(rng)
    return mutate.mutant(rng, t) if rng.random() < 0.4 else t


def flags(rng):
    f = {"expand_includes": False}
    if rng.random() < 0.4:
        f["include_position"] = True
    if rng.random() < 0.4:
        f["include_comments"] = True
    return f


def guarded(fn):
    """the result of a call as data that can be compared: content, or the class of the exception"""
    try:
        return ("ok", fn())
    except Exception as e:  # noqa
        return ("raised", type(e).__name__, getattr(e, "line", None), getattr(e, "column", None))


def content(x):
    return common.content(x)


VERSIONS = [None, 5.0, 6.0, 7.0, 7.6, 8.0, 8.2, 8.4]


def options(rng):
    return common.options(rng, separate_complex_types=False)


def query(rng, d):
    """a call of one of the query helpers on a part of the dictionary"""
    lists = [(o, k) for p, o in common.objects_of(d) for k, v in dict.items(o)
             if isinstance(v, list) and v and isinstance(v[0], dict)]
    x = rng.random()
    if not lists or x < 0.2:
        keys = [["layers", 0], ["web"], ["layers", 0, "classes", 0], ["name"], ["layers", 7], ["zz", "a"], []]
        ks = rng.choice(keys)
        return "findkey", (lambda: mappyfile.findkey(d, *ks)), [d, ks]
    o, k = rng.choice(lists)
    lst = o[k]
    key = rng.choice(["name", "type", "NAME", "group", "status", "zz", "classitem"] + [k for x in lst for k in list(x)[:4]])
    vals = [x.get(key) if type(x) is not dict else None for x in lst] + ["a", 1, None]
    vals = [v for v in vals if not isinstance(v, (dict, list))]
    v = rng.choice(vals)
    if x < 0.45:
        return "find", (lambda: mappyfile.find(lst, key, v)), [d, lst]
    if x < 0.75:
        vs = rng.sample(vals, min(len(vals), rng.randint(1, 3)))
        many = [vs] if rng.random() < 0.5 else vs
        return "findall", (lambda: mappyfile.findall(lst, key, *many)), [d, lst, many]
    return "findunique", (lambda: mappyfile.findunique(lst, key)), [d, lst]


class Sink(io.StringIO):
    pass


def calls(rng, d, folder):
    """(name, thunk, arguments to watch) of read-only calls on the dictionary"""
    out = []
    o = options(rng)
    out.append(("dumps", lambda: mappyfile.dumps(d, **o), [d, o]))
    o2 = options(rng)

    def dump():
        f = Sink()
        mappyfile.dump(d, f, **o2)
        return f.getvalue()

    out.append(("dump", dump, [d, o2]))
    o3 = options(rng)

    def save():
        fn = os.path.join(folder, f"s{os.getpid()}-{threading.get_ident()}-{rng_free()}.map")
        mappyfile.save(d, fn, **o3)
        with open(fn, "rb") as f:
            b = f.read()
        os.remove(fn)
        return b

    out.append(("save", save, [d, o3]))
    for _ in range(2):
        v = rng.choice(VERSIONS)
        out.append(("validate", lambda v=v: mappyfile.validate(d, v) if v else mappyfile.validate(d), [d]))
    for _ in range(3):
        out.append(query(rng, d))
    return out


_n = [0]


def rng_free():
    _n[0] += 1
    return _n[0]


def loadable(rng, **fs):
    while True:
        d, e = common.try_loads(document(rng, 3), **fs)
        if d:
            return d


def dictionaries(rng):
    """loaded, created, edited and plain dictionaries, some with values that are refused"""
    x = rng.random()
    if x < 0.6:
        d = loadable(rng, **flags(rng))
    elif x < 0.75:
        t = rng.choice(sorted(vocab.TYPES))
        d = mappyfile.create(t, rng.choice(VERSIONS))
        if rng.random() < 0.5:
            d["Name"] = "x"
            d["Layers"] = []
    elif x < 0.9:
        d = loadable(rng)
        for _ in range(rng.randint(1, 4)):
            o = rng.choice([o for p, o in common.objects_of(d)])
            k = rng.choice(["name", "layers", "classes", "points", "metadata", "extent", "__x__", "zz", "projection", "pattern"])
            o[k] = rng.choice(["x", 1, None, [], {}, [1, 2], [[1, 2]], {"a": 1}, True, [{}], "([a] = 1)"])
    else:
        d = json.loads(json.dumps(loadable(rng)))
    if isinstance(d, dict) and rng.random() < 0.1:
        d = [d, d] if rng.random() < 0.3 else [d]
    return d


def purity(mon, rng):
    folder = common.scratch()
    for _ in range(4):
        d = dictionaries(rng)
        for name, fn, args in calls(rng, d, folder) + calls(rng, d, folder)[:2]:
            before = [common.snapshot(a) for a in args]
            first = guarded(fn)
            mon.count("snapshots", len(args))
            mon.count("calls:" + name)
            mon.case(name + str(before[0][0]) + str(len(args)), first[0] == "ok")
            for a, b in zip(args, before):
                s = common.snapshot(a)
                if s != b:
                    mon.violation("argument-changed:" + name, f"{name} changed its argument ({first[0]})\n"
                                  f"before {common.short(repr(b[0]), 1500)}\nafter  {common.short(repr(s[0]), 1500)}")
                    return
            again = guarded(fn)
            if show(first) != show(again):
                mon.violation("repeat:" + name, f"{name} gave {common.short(repr(first), 1500)} and then {common.short(repr(again), 1500)}")
                return


def show(r):
    return content(r) if r[0] == "ok" else r


def history(mon, rng):
    """used again against fresh"""
    from mappyfile.parser import Parser
    from mappyfile.pprint import PrettyPrinter
    from mappyfile.transformer import MapfileToDict
    from mappyfile.validator import Validator

    f = flags(rng)
    comments, pos = f.get("include_comments", False), f.get("include_position", False)
    p = Parser(expand_includes=False, include_comments=comments)
    m = MapfileToDict(include_position=pos, include_comments=comments)
    o = options(rng)
    pp = PrettyPrinter(**o)
    va = Validator()
    past = []
    held = []
    for step in range(12):
        text = past[rng.randrange(len(past))] if past and rng.random() < 0.3 else any_text(rng)
        past.append(text)
        mon.count("history_steps")
        used = guarded(lambda: m.transform(p.parse(text)))
        fresh = guarded(lambda: mappyfile.loads(text, **f))
        mon.case(text + repr(f) + str(step))
        if show(used) != show(fresh):
            mon.violation("history:Parser", f"step {step} {f}: used {common.short(repr(used), 1500)}\nfresh {common.short(repr(fresh), 1500)}\n"
                          f"{common.short(text, 1500)}\nafter {common.short(repr(past[-3:-1]), 1500)}")
            return
        if used[0] != "ok":
            mon.count("history_refused")
            # an error in the middle of printing and validating as well
            d = rng.choice([{"__type__": "map", "name": {}}, {"__type__": "layer", "classes": [{"__type__": "class", "extent": {}}]},
                            {"name": "x"}, [], {"__type__": "map", "web": {"__type__": "web", "x": {}}}])
        else:
            d = used[1]
            held.append((d, content(d)))
        a, b = guarded(lambda: pp.pprint(copy.deepcopy(d))), guarded(lambda: mappyfile.dumps(copy.deepcopy(d), **o))
        mon.check(a == b, "history:PrettyPrinter", lambda: f"step {step} {o}: used {common.short(repr(a), 1500)}\nfresh {common.short(repr(b), 1500)}")
        v = rng.choice(VERSIONS)
        add = rng.random() < 0.2
        a = guarded(lambda: va.validate(copy.deepcopy(d), version=v, add_comments=add))
        b = guarded(lambda: mappyfile.validate(copy.deepcopy(d), version=v))
        mon.check(show(a) == show(b), "history:Validator", lambda: f"step {step} version {v}: used {common.short(repr(a), 1500)}\n"
                  f"fresh {common.short(repr(b), 1500)}")
        if a[0] == "ok" and a[1] and rng.random() < 0.3:
            a[1][0]["message"] = "changed by the caller"
            a[1].append("x")
        if rng.random() < 0.2:
            va.get_versioned_schema(rng.choice(VERSIONS), rng.choice(["map", "layer", "class"]))
        # results given out before stay as they are, and what the caller does to them stays out of later results
        for x, c in held:
            mon.check(content(x) == c, "history:earlier-result", lambda: f"step {step}: an earlier result changed to {common.short(repr(x), 1500)}")
        if held and rng.random() < 0.3:
            x, _ = held.pop(rng.randrange(len(held)))
            for _, obj in common.objects_of(x):
                obj["scribble"] = [1]
                for k, val in list(dict.items(obj)):
                    if isinstance(val, list):
                        val.append("scribble")


def spoil(x, depth=0):
    """change every container of a value"""
    if isinstance(x, dict):
        for v in list(dict.values(x)):
            spoil(v)
        x["scribble"] = "s"
        for k in list(x)[:1]:
            dict.__setitem__(x, k, "s")
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x.append("scribble")


def isolation(mon, rng):
    """results share nothing: ruin one, ask again"""
    text = document(rng, 3)
    fs = flags(rng)
    t, v = rng.choice(sorted(vocab.TYPES)), rng.choice(VERSIONS)
    bad = {"__type__": "layer", "type": "wrong", "zz": 1, "classes": [{"__type__": "class", "size": "x"}]}
    made = [
        ("loads", lambda: mappyfile.loads(text, **fs)),
        ("create", lambda: mappyfile.create(t, v)),
        ("validate", lambda: mappyfile.validate(bad, v)),
        ("default list", lambda: mappyfile.loads("MAP END")["layers"]),
        ("default list", lambda: mappyfile.loads("MAP LAYER END END")["layers"][0]["classes"]),
        ("findkey", lambda: mappyfile.findkey(mappyfile.loads("MAP LAYER END END"), "layers", 0)),
        ("findunique", lambda: mappyfile.findunique([{"a": 2}, {"a": 1}], "a")),
        ("findall", lambda: mappyfile.findall([{"a": 2}, {"a": 1}], "a", 1)),
    ]
    for name, fn in made:
        r = guarded(fn)
        if r[0] != "ok":
            mon.count("isolation_refused")
            continue
        was = content(r[1])
        x2 = guarded(fn)[1]
        spoil(r[1])
        mon.case(name + repr(was))
        mon.check(content(x2) == was, "shared:" + name, lambda: f"{name}: a result held by the caller changed with another one")
        x3 = guarded(fn)
        mon.check(x3[0] == "ok" and content(x3[1]) == was, "shared:" + name,
                  lambda: f"{name}: {common.short(repr(was), 1200)} became {common.short(repr(x3), 1200)} after an earlier result was changed")


def files(mon, rng, i):
    """the content of the files at the time of the call counts, not what an earlier call saw"""
    base = os.path.join(common.scratch(), f"files-{os.getpid()}-{i}")
    os.makedirs(base, exist_ok=True)
    from mappyfile.parser import Parser
    from mappyfile.transformer import MapfileToDict

    p, m = Parser(), MapfileToDict()
    dirs = [os.path.join(base, n) for n in ("a", "b")]
    for x in dirs:
        os.makedirs(x, exist_ok=True)
    now = {}
    names = ["inc1.map", "inc2.map"]

    def write(x, n):
        body = doc.render([gen.Gen(rng, "valid", maxdepth=1, kw_p=0.2, avoid_quote="'\"").block("layer")], doc.Style(rng)).text
        now[x, n] = body
        with open(os.path.join(x, n), "w", encoding="utf-8", newline="") as f:
            f.write(body)

    for x in dirs:
        for n in names:
            write(x, n)
    was = os.getcwd()
    try:
        for step in range(14):
            x = rng.choice(dirs)
            if rng.random() < 0.5:
                write(rng.choice(dirs), rng.choice(names))
                mon.count("files_changed")
            n1, n2 = rng.choice(names), rng.choice(names)
            text = f'MAP NAME "m"\nINCLUDE "{n1}"\nSTATUS ON\nINCLUDE \'{n2}\' # c\nEND'
            flat = f'MAP NAME "m"\n{now[x, n1]}\nSTATUS ON\n{now[x, n2]}\nEND'
            want = guarded(lambda: mappyfile.loads(flat, expand_includes=False))
            fn = os.path.join(x, "main.map")
            with open(fn, "w", encoding="utf-8", newline="") as f:
                f.write(text)
            before = {n: os.stat(os.path.join(x, n)).st_mtime_ns for n in names}
            os.chdir(x)
            got = {"loads": guarded(lambda: mappyfile.loads(text)), "Parser.parse": guarded(lambda: m.transform(p.parse(text)))}
            os.chdir(rng.choice(dirs + [base]))
            got["open"] = guarded(lambda: mappyfile.open(fn))
            got["Parser.parse_file"] = guarded(lambda: m.transform(p.parse_file(fn)))
            with open(fn, encoding="utf-8") as f:
                got["load"] = guarded(lambda: mappyfile.load(f))
                mon.check(not f.closed, "load closed the file", "load closed the file object it was given")
            for k, r in got.items():
                mon.case(k + text + flat)
                mon.check(show(r) == show(want), "files:" + k, lambda: f"step {step}: {k} gave {common.short(repr(r), 1200)}\n"
                          f"expected {common.short(repr(want), 1200)}")
            with open(fn, encoding="utf-8", newline="") as f:
                mon.check(f.read() == text, "files:changed", "opening a Mapfile changed the file")
            mon.check(before == {n: os.stat(os.path.join(x, n)).st_mtime_ns for n in names}, "files:changed", "opening a Mapfile wrote to an include")
    finally:
        os.chdir(was)


# ------------------------------------------------------------------------------------------------------ threads
PKG = os.path.join(os.path.abspath(REPO), "mappyfile")


class Pauses:
    """pauses at lines of mappyfile, and a record of where control moved between threads"""

    def __init__(self, seed, rate):
        self.rng = random.Random(seed)
        self.rate = rate
        self.last = None
        self.lastplace = None
        self.switches = 0
        self.places = set()

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        return self.line

    def line(self, frame, event, arg):
        me = threading.get_ident()
        place = (frame.f_code.co_name, frame.f_lineno)
        if self.last != me and self.last is not None:
            self.switches += 1
            self.places.add((self.lastplace, place))
        self.last, self.lastplace = me, place
        if event == "line":
            x = self.rng.random()
            if x < self.rate:
                time.sleep(0 if x < self.rate * 0.7 else 0.0002)
        return self.line


def tasks(rng, folder, n):
    out = []
    shared = []
    for _ in range(4):
        shared.append(dictionaries(rng))
    fns = []
    for k in range(2):
        fn = os.path.join(folder, f"t{os.getpid()}-{rng_free()}.map")
        inc = os.path.join(folder, f"i{os.getpid()}-{rng_free()}.map")
        with open(inc, "w", encoding="utf-8", newline="") as f:
            f.write(f'LAYER NAME "i{k}" TYPE POINT END # {k}\n')
        with open(fn, "w", encoding="utf-8", newline="") as f:
            f.write(f'MAP # c{k}\nNAME "m{k}"\nINCLUDE "{os.path.basename(inc)}"\n# e{k}\nWEB METADATA "a" "{k}" END END\nEND')
        fns += [fn, inc]
    for _ in range(n // 3):
        text, fs = any_text(rng), flags(rng)
        out.append(("loads", lambda text=text, fs=fs: content(mappyfile.loads(text, **fs))))
    for fn in fns[::2]:
        fs = flags(rng)
        fs["expand_includes"] = True
        out.append(("open", lambda fn=fn, fs=fs: content(mappyfile.open(fn, **fs))))

        def load(fn=fn, fs=fs):
            with open(fn, encoding="utf-8") as f:
                return content(mappyfile.load(f, **fs))

        out.append(("load", load))
    while len(out) < n:
        x = rng.random()
        if x < 0.7:
            d = rng.choice(shared)
            name, fn, args = rng.choice(calls(rng, d, folder))
            out.append((name, lambda fn=fn: content(fn())))
        elif x < 0.8:
            t, v = rng.choice(sorted(vocab.TYPES)), rng.choice(VERSIONS)
            out.append(("create", lambda t=t, v=v: content(mappyfile.create(t, v))))
        elif x < 0.9:
            d = rng.choice(shared)
            o = common.options(rng, separate_complex_types=True)
            out.append(("dumps own", lambda d=d, o=o: mappyfile.dumps(copy.deepcopy(d), **o)))
        else:
            d = rng.choice([x for x in shared if isinstance(x, dict)] or [{"a": 1}])
            d2 = {"name": "u", "web": {"__type__": "web", "metadata": {"a": "b"}}, "layers": [None, {"name": "z"}]}
            out.append(("update", lambda d=d, d2=d2: content(mappyfile.update(copy.deepcopy(d), d2))))
    return out, shared, fns


def threads(mon, rng, i, n=None, size=30):
    folder = common.scratch()
    todo, shared, fns = tasks(rng, folder, size)
    was = [common.snapshot(d) for d in shared]
    want = [guarded(fn) for _, fn in todo]
    mon.check([common.snapshot(d) for d in shared] == was, "argument-changed:sequential", "a sequential run changed its shared arguments")
    log = []
    bad = []
    pauses = Pauses(rng.random(), rng.choice([0, 0.01, 0.05]))
    n = n or rng.choice([4, 8, 16])
    orders = []
    for k in range(n):
        ks = list(range(len(todo)))
        rng.shuffle(ks)
        # now and then everyone runs the same calls at the same time
        orders.append(orders[0] if k and i % 3 == 0 else ks[: max(6, 240 // n)])
    gate = threading.Barrier(n)

    def body(ks):
        gate.wait()
        for k in ks:
            log.append((0, k))
            r = guarded(todo[k][1])
            log.append((1, k))
            if r != want[k]:
                bad.append((k, r))

    ts = [threading.Thread(target=body, args=(ks,), daemon=True) for ks in orders]
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    if pauses.rate:
        threading.settrace(pauses.trace)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join(100)
            if t.is_alive():
                mon.violation("deadlock", "threads did not finish")
                return
    finally:
        threading.settrace(None)
        sys.setswitchinterval(interval)
    for k, r in bad[:3]:
        mon.violation("threads:" + todo[k][0], f"{todo[k][0]} in {n} threads gave {common.short(repr(r), 1200)}\nalone {common.short(repr(want[k]), 1200)}")
    mon.check([common.snapshot(d) for d in shared] == was, "argument-changed:threads", "concurrent calls changed their shared arguments")
    # which calls ran at the same time
    running, pairs = [], set()
    for what, k in log:
        if what == 0:
            pairs |= {(j, k) for j in running}
            running.append(k)
        else:
            running.remove(k)
            mon.case(f"{i}:{k}:{todo[k][0]}")
    mon.count("calls_in_threads", len(log) // 2)
    mon.count("overlapping_pairs", len(pairs))
    mon.count("switches", pauses.switches)
    mon.count("switch_places", len(pauses.places))
    for name in {(todo[a][0], todo[b][0]) for a, b in pairs}:
        mon.distinct.add(hashlib.blake2b(repr(("pair", name)).encode(), digest_size=8).digest())
    for p in pauses.places:
        mon.distinct.add(hashlib.blake2b(repr(("place", p)).encode(), digest_size=8).digest())
    for fn in fns:
        os.remove(fn)


def refused(mon, rng):
    """a value that cannot be printed, anywhere: the dictionary is as it was, and the next call is not affected"""
    g = gen.Gen(rng, "valid", maxdepth=3, kw_p=0.2, avoid_quote="'\"")
    d = common.loads(doc.render(g.document(), doc.Style(rng)).text)
    good = mappyfile.dumps(d)
    msgs = mappyfile.validate(d, 8.0)
    for p, o in list(common.objects_of(d)):
        if o.get("__type__") not in vocab.TYPES:
            continue
        k = rng.choice(["name", "zz", "extent", "type", "web"])
        had = k in o
        old = dict.get(o, k)
        o[k] = rng.choice([{}, type(d)() if isinstance(d, dict) else {}, {"a": {}}, object()])
        for name, fn in (("dumps", lambda: mappyfile.dumps(d)), ("validate", lambda: mappyfile.validate(d))):
            was = common.snapshot(d)
            r = guarded(fn)
            mon.count("snapshots")
            mon.count("refused_" + r[0])
            mon.case(repr((name, p, k, was[0])))
            mon.check(common.snapshot(d) == was, "argument-changed:" + name, lambda: f"{name} changed its argument at {p}: {common.short(repr(d), 1500)}")
        if had:
            dict.__setitem__(o, k, old)
        else:
            del o[k]
    mon.check(mappyfile.dumps(d) == good, "after-refusal:dumps", "dumps gives another text after values were refused")
    mon.check(mappyfile.validate(d, 8.0) == msgs, "after-refusal:validate", "validate gives other messages after refusals")


def rich(rng, depth=2):
    """a document with much in it, its values few and alike (1, 1.0, "1", TRUE), so that whatever remembers by value meets its twin"""
    g = gen.Gen(rng, rng.choice(["valid", "loose"]), maxdepth=depth, kw_p=rng.choice([0.1, 0.3, 0.5]), avoid_quote="'\"")
    g.maxblocks = rng.choice([5, 12])
    g.tight = True
    return doc.render(g.document(), doc.Style(rng, comments=rng.random() < 0.3)).text


def twin(rng, text):
    """almost the same text: numbers in another form, another letter case, other quotes"""
    def number(m):
        t = m.group(0)
        return t if rng.random() < 0.5 else (t[:-2] if t.endswith(".0") else t if "." in t else t + ".0")

    x = rng.random()
    if x < 0.5:
        return re.sub(r"(?<![\w.\"'/-])\d+(\.\d+)?(?![\w.\"'/])", number, text)
    if x < 0.7:
        return text.swapcase()
    if x < 0.85 and "'" not in text:
        return text.replace('"', "'")
    return re.sub(r"\b(true|false|on|off)\b", lambda m: rng.choice([m.group(0).upper(), m.group(0).lower(), '"%s"' % m.group(0).lower()]), text, flags=re.I)


def orders(mon, rng, i):
    """
    The same calls in fresh processes, each in another order: what a call gives cannot depend on what was called before it,
    not even where something is remembered for a whole process.
    """
    cases = []
    for _ in range(14):
        t = rich(rng)
        for v in (t, twin(rng, t), twin(rng, t)):
            f = {k: v for k, v in flags(rng).items() if k != "expand_includes"}
            os_ = [options(rng) for _ in range(2)] + [{"version": v} for v in rng.sample(VERSIONS, 2)]
            cases.append([v, f, os_])
    rng.shuffle(cases)
    ways = [list(range(len(cases))), list(range(len(cases)))[::-1]]
    ways.append(rng.sample(ways[0], len(cases)))
    runs = []
    for w in ways:
        r = remote.run([cases[k] for k in w], {"PYTHONHASHSEED": "0"}, printed=True)
        runs.append(dict(zip(w, r)))
    for k, c in enumerate(cases):
        mon.case(repr(c) + "orders")
        mon.count("ordered_calls", 3 * (len(runs[0][k]) + 1))
        mon.count("orders_" + runs[0][k][0])
        mon.check(runs[0][k] == runs[1][k] == runs[2][k], "order-of-calls",
                  lambda: f"in other orders of {len(cases)} cases: {[[common.short(b, 500) for a, b in zip(runs[0][k], r[k]) if a != b] for r in runs]}\n{c}")


def reused(mon, rng):
    """printers and validators that are kept, over many dictionaries whose values are alike, against new ones"""
    from mappyfile.parser import Parser
    from mappyfile.pprint import PrettyPrinter
    from mappyfile.transformer import MapfileToDict
    from mappyfile.validator import Validator

    opts = [options(rng) for _ in range(3)]
    kept = [PrettyPrinter(**o) for o in opts]
    checker = Validator()
    parser = Parser(expand_includes=False)
    for _ in range(10):
        t = rich(rng)
        for text in (t, twin(rng, t)):
            try:
                d = common.loads(text)
            except common.LARK_ERRORS:
                continue
            mon.case(text + "reused")
            for o, p in zip(opts, kept):
                got, want = guarded(lambda: p.pprint(d)), guarded(lambda: PrettyPrinter(**o).pprint(d))
                mon.count("history_steps")
                mon.check(got == want, "history:printer-values", lambda: f"a printer that was used gives {common.short(repr(got), 900)}\na new one {common.short(repr(want), 900)}\n{o}")
            v = rng.choice(VERSIONS)
            got, want = guarded(lambda: checker.validate(d, version=v)), guarded(lambda: mappyfile.validate(d, v))
            mon.count("history_steps")
            mon.check(got == want, "history:validator-values", lambda: f"a validator that was used gives {common.short(repr(got), 900)}\na new one {common.short(repr(want), 900)}\nversion {v}\n{text}")
            got = guarded(lambda: content(MapfileToDict().transform(parser.parse(text))))
            mon.check(got == ("ok", content(d)), "history:parser-values", lambda: f"a parser that was used gives {common.short(repr(got), 900)}\n{text}")


PLAIN = """
import json, logging, random, sys
from mfv.runner import Mon
from checks import c12
logging.disable(logging.CRITICAL)
mon = Mon("C12")
c12.start("quick")
c12.threads(mon, random.Random(int(sys.argv[1])), int(sys.argv[2]) * 3, 4, 12)
print(json.dumps({"violations": [(v["mechanism"], v["detail"]) for v in mon.violations], "counts": dict(mon.counts)}))
"""


def unit(job, i, rng, mon):
    if job == "purity":
        purity(mon, rng)
    elif job == "history":
        history(mon, rng)
    elif job == "files":
        files(mon, rng, i)
    elif job == "isolation":
        for _ in range(3):
            isolation(mon, rng)
    elif job == "threads":
        threads(mon, rng, i)
    elif job == "plain":
        p = subprocess.run([sys.executable, "-c", PLAIN, str(rng.randrange(10**9)), str(i)], capture_output=True, encoding="utf-8",
                           cwd=ROOT, timeout=110)
        if p.returncode:
            mon.problem(p.stderr[-1500:])
            return
        r = json.loads(p.stdout)
        for mech, detail in r["violations"]:
            mon.violation(mech, detail)
        mon.counts.update(r["counts"])
        mon.count("plain_calls", r["counts"]["calls_in_threads"])
    elif job == "orders":
        orders(mon, rng, i)
    elif job == "reused":
        reused(mon, rng)
    elif job == "refused":
        refused(mon, rng)
    elif job == "seeds":
        cases = [[any_text(rng), {k: v for k, v in flags(rng).items() if k != "expand_includes"}] for _ in range(80)]
        runs = [remote.run(cases, {"PYTHONHASHSEED": s, "LANG": lang, "LC_ALL": lang}, printed=True)
                for s, lang in (("0", "C"), (str(rng.randrange(1, 10**9)), "C.UTF-8"), (str(rng.randrange(1, 10**9)), "POSIX"))]
        for k, c in enumerate(cases):
            mon.case(c[0] + "seeds")
            mon.check(runs[0][k] == runs[1][k] == runs[2][k], "hash-seed", lambda: f"{[common.short(r[k], 600) for r in runs]}\n{c}")
