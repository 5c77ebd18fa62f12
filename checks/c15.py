"""C15: INCLUDE expansion equals textual substitution, bounded at five levels"""

from __future__ import annotations

import io
import os
import pathlib
import sys

from mfv import common, doc, gen, mutate, vocab
from mfv.common import mappyfile
from mfv.doc import Attr, Block, Val

PROPERTY = "C15"
LEVEL = "exploration"
RULE = (
    "cases are (include tree on disk, way of loading, working directory). A document written a keyword a line is cut into a tree of "
    "files at random lines (unbalanced cuts too); the checker, which knows the tree, substitutes the text itself. open, load (file object "
    "with and without a name, parse_file) and loads of the root have to give the dictionary of the flat text, classes, key order, values, "
    "positions and comments included, or the same error at the same place. Decoys with the same names lie in the working directory "
    "and next to nested files; an audit hook records every file opened, which has to be the referenced files and no other. Depth 0..7, "
    "fan-out up to 30, cycles of 1..7 files, missing files, and expand_includes=False with what is written back. "
    "Non-trivial: at least one INCLUDE; counted by tree and way."
)
ASSUMPTIONS = ["INCLUDE directives stand on a line of their own, outside strings and comments",
               "a file object opened by a relative name is loaded from the directory it was opened from"]


def start(tier):
    install()


def setup(tier):
    common.fast_lark()


def plan(tier):
    big = tier == "thorough"
    return [
        ("tree", 8000 if big else 320, 5),
        ("depth", 240 if big else 24, 2),
        ("wide", 100 if big else 12, 1),
        ("cycle", 400 if big else 40, 4),
        ("missing", 600 if big else 40, 5),
        ("kept", 4000 if big else 160, 5),
        ("broken", 2000 if big else 80, 5),
        ("spelling", 60 if big else 12, 1),
    ]


def REQUIRED(tier):
    return {"evaluations": 5000, "includes": 8000, "expanded_5": 100, "refused_6": 100, "cycles": 100, "missing": 100, "kept": 500,
            "files_opened": 8000, "same_error": 100, "relative_root": 200, "with_flags": 400}


# --------------------------------------------------------------------------------- what is opened (audit events)
OPENED = None


def hook(event, args):
    if event == "open" and OPENED is not None and isinstance(args[0], (str, bytes)):
        OPENED.append(os.path.abspath(os.fsdecode(args[0])))


def install():
    if not getattr(install, "done", False):
        sys.addaudithook(hook)
        install.done = True


class Watch:
    def __init__(self, base):
        self.base = os.path.join(os.path.realpath(base), "")

    def __enter__(self):
        global OPENED
        self.list = OPENED = []
        return self

    def __exit__(self, *a):
        global OPENED
        OPENED = None

    def files(self):
        return sorted(f for f in map(os.path.realpath, self.list) if f.startswith(self.base))


# ---------------------------------------------------------------------------------------------------- the trees
class File:
    """lines (units of whole items) and Inc; eol per file"""

    __slots__ = ("path", "units", "eol", "last")

    def __init__(self, path, units, eol="\n", last=True):
        self.path, self.units, self.eol, self.last = path, units, eol, last

    def text(self, root):
        return self.eol.join(u.line(root) if isinstance(u, Inc) else u for u in self.units) + (self.eol if self.last else "")

    def flat(self, root):
        """the text with each INCLUDE line replaced by the content of its file"""
        out = []
        for n, u in enumerate(self.units):
            final = n == len(self.units) - 1
            end = "" if final and not self.last else self.eol
            if isinstance(u, Inc):
                # the whole line goes, up to its line feed
                out.append(u.file.flat(root) + end[-1:])
            else:
                out.append(u + end)
        return "".join(out) or (self.eol if self.last else "")

    def walk(self):
        yield self
        for u in self.units:
            if isinstance(u, Inc):
                yield from u.file.walk()

    def depth(self):
        return max([0] + [1 + u.file.depth() for u in self.units if isinstance(u, Inc)])


class Inc:
    __slots__ = ("file", "kw", "quote", "lead", "gap", "tail", "absolute", "path")

    def __init__(self, file, rng, plain=False):
        self.file = file
        self.kw = rng.choice(["INCLUDE", "INCLUDE", "include", "Include", "iNCLUDE"])
        self.lead = rng.choice(["", "  ", "\t", "    ", " \t "])
        self.absolute = rng.random() < 0.2
        self.gap = rng.choice([" ", " ", "  ", "\t"])
        self.tail = rng.choice(["", "", "", " ", "\t", " # note", "  # it's \"here\"", " #", " # INCLUDE 'nothing.map'", "\t#c"])
        self.quote = rng.choice(['"', "'", ""])

    def spelled(self, root):
        p = os.path.join(root, self.file.path)
        if self.absolute:
            return os.path.normpath(p)
        return self.file.path

    def line(self, root):
        s = self.spelled(root)
        q = self.quote
        if q == "" and any(not (c.isascii() and (c.isalnum() or c in "/._-")) for c in s):
            q = '"'
        if q and q in s:
            q = "'" if q == '"' else '"'
        assert q not in s or not q, s
        gap = self.gap
        return self.lead + self.kw + gap + q + s + q + self.tail


NAMES = ["part", "layers", "a-b", "x.y", "with space", "a#b", "é中", "it's", 'say "so"', "END", "INCLUDE", "Upper", "layer", "%v%", "1",
         "$HOME", "${HOME}", "~", "~root", "[ab]", "a?b*", "%20", "a+b", "file:", "a=b;c", "a\\b", "a\\'b", "{x}", "a,b", "ﬁ", "e\u0301", "&amp;", "-", "..."]
DIRS = ["", "", "", "sub/", "sub/deep/", "./", "../shared/", "sub/../", "dir with space/", "é/", "../", "sub//"]


class Maker:
    """cuts units into files"""

    def __init__(self, rng, names=NAMES, crlf=True):
        self.rng = rng
        self.n = 0
        self.names = names
        self.crlf = crlf

    def path(self):
        self.n += 1
        r = self.rng
        return r.choice(DIRS) + r.choice(self.names) + str(self.n) + r.choice([".map", ".inc", "", ".txt"])

    def cut(self, units, depth, p=1.0):
        """a list of units of which some ranges became includes"""
        r = self.rng
        if depth == 0 or r.random() > p:
            return units
        k = r.choice([1, 1, 2, 3, 4])
        cuts = sorted(r.randint(0, len(units)) for _ in range(2 * k))
        out, at = [], 0
        for a, b in zip(cuts[::2], cuts[1::2]):
            if a < at:
                continue
            out += units[at:a]
            out.append(Inc(self.file(self.cut(units[a:b], depth - 1, 0.7)), r))
            at = b
        return out + units[at:]

    def file(self, units, path=None):
        r = self.rng
        return File(path or self.path(), units, "\r\n" if self.crlf and r.random() < 0.25 else "\n", r.random() < 0.7)


def units_of(rng, items):
    """the lines of a document, with noise: comments (also of INCLUDE directives), empty lines, several items on a line"""
    lines, _ = doc.render_lines(items, indent=rng.choice([0, 2, 4]), case=rng.choice(["upper", "lower", "title"]), rng=rng,
                                quotes=rng.choice(["random", '"', "'"]))
    out = []
    for line in lines:
        if rng.random() < 0.06:
            out.append(rng.choice(["# INCLUDE 'missing.map'", "", "   ", "#", "  #INCLUDE \"missing.map\"", "/* INCLUDE 'missing.map' */",
                                   "# a comment"]))
        if rng.random() < 0.06:
            line += rng.choice([" # INCLUDE \"missing.map\"", " # trailing", " /* INCLUDE 'missing.map' */"])
        elif out and rng.random() < 0.06 and "#" not in out[-1] and out[-1].strip() and "\n" not in out[-1] + line:
            out[-1] += " " + line
            continue
        out.append(line)
    return out


def document(rng, **kw):
    g = gen.Gen(rng, "valid", avoid_quote=None, multiline=rng.random() < 0.3, maxdepth=kw.pop("maxdepth", 3), kw_p=0.25, **kw)
    items = g.document()
    return items


class Disk:
    """the tree written below a scratch folder of its own, with decoys"""

    def __init__(self, base, root):
        self.base = base
        self.dir = os.path.join(base, "maps", "home")
        self.root = root
        self.path = os.path.join(self.dir, root.path)
        self.decoy_dirs = [os.path.join(base, "elsewhere"), os.path.join(base, "elsewhere", "inner")]

    def write(self, f, text=None):
        fn = os.path.join(self.dir, f.path)
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        put(fn, f.text(self.dir) if text is None else text)
        return fn

    def store(self, rng):
        for d in [self.dir, os.path.join(self.dir, "sub", "deep"), os.path.join(self.base, "maps", "shared")] + self.decoy_dirs:
            os.makedirs(d, exist_ok=True)
        real = set()
        for f in self.root.walk():
            real.add(os.path.realpath(self.write(f)))
        # the same relative names from other places hold something else
        for f in list(self.root.walk())[1:]:
            for d in self.decoy_dirs + [os.path.dirname(os.path.join(self.dir, g.path)) for g in self.root.walk()]:
                if rng.random() < 0.5:
                    fn = os.path.realpath(os.path.join(d, f.path))
                    if fn not in real and fn.startswith(os.path.join(os.path.realpath(self.base), "")) and not os.path.exists(fn):
                        os.makedirs(os.path.dirname(fn), exist_ok=True)
                        if not os.path.exists(fn):
                            put(fn, "DECOY 'wrong file'\n")


def put(fn, text):
    with open(fn, "w", encoding="utf-8", newline="") as f:
        f.write(text)


WAYS = ["open", "open", "open-relative", "open-path", "load", "load-universal", "load-noname", "loads", "parse_file", "open-dotted"]


def load(disk, way, flags, rng):
    """the dictionary, or the exception; the working directory is one that the way of loading allows"""
    far = rng.choice(disk.decoy_dirs + ["/", disk.base, os.path.dirname(disk.dir)])
    was = os.getcwd()
    try:
        if way == "open":
            os.chdir(far)
            return mappyfile.open(disk.path, **flags)
        if way == "open-path":
            os.chdir(far)
            return mappyfile.open(pathlib.Path(disk.path), **flags)
        if way == "open-dotted":
            os.chdir(far)
            return mappyfile.open(os.path.join(disk.dir, "sub", "..", disk.root.path), **flags)
        if way == "open-relative":
            os.chdir(rng.choice([disk.dir, disk.base, disk.decoy_dirs[1], os.path.join(disk.dir, "sub")]))
            return mappyfile.open(os.path.relpath(disk.path), **flags)
        if way in ("load", "load-universal"):
            os.chdir(far)
            with open(disk.path, encoding="utf-8", newline="" if way == "load" else None) as fp:
                return mappyfile.load(fp, **flags)
        text = disk.root.text(disk.dir)
        if way == "load-noname":
            os.chdir(disk.dir)
            return mappyfile.load(io.StringIO(text, newline=""), **flags)
        if way == "parse_file":
            from mappyfile.parser import Parser
            from mappyfile.transformer import MapfileToDict

            os.chdir(far)
            tree = Parser(include_comments=flags.get("include_comments", False)).parse_file(disk.path)
            return MapfileToDict(flags.get("include_position", False), flags.get("include_comments", False)).transform(tree)
        assert way == "loads"
        os.chdir(disk.dir)
        return mappyfile.loads(text, **flags)
    finally:
        os.chdir(was)


def flat_text(disk, way):
    root = disk.root
    if way == "load-universal":
        eol = root.eol
        units = [u if isinstance(u, Inc) else u.replace("\r\n", "\n").replace("\r", "\n") for u in root.units]
        return File(root.path, units, "\n", root.last).flat(disk.dir)
    return root.flat(disk.dir)


def outcome(f):
    try:
        return f(), None
    except common.LARK_ERRORS as e:
        return None, e


def err(e):
    return e and (type(e).__name__, getattr(e, "line", None), getattr(e, "column", None))


_n = [0]


def fresh():
    _n[0] += 1
    base = os.path.join(common.scratch(), f"c15-{os.getpid()}-{_n[0]}")
    os.makedirs(base)
    return base


def dispose(base):
    import shutil

    assert base.startswith(common.scratch())
    shutil.rmtree(base, ignore_errors=True)


def flagset(rng):
    f = {}
    if rng.random() < 0.25:
        f["include_position"] = True
    if rng.random() < 0.25:
        f["include_comments"] = True
    return f


def observe(mon, rng, disk, ways, label):
    """every way of loading gives what the flat text gives"""
    refs = [f for f in disk.root.walk()][1:]
    want_files = sorted(os.path.realpath(os.path.join(disk.dir, f.path)) for f in refs)

    def detail(way="", flags=""):
        return f"{label} {way} {flags}\n" + "\n".join(f"--- {f.path!r}\n{f.text(disk.dir)}" for f in disk.root.walk())

    for way in ways:
        flags = flagset(rng)
        mon.count("with_flags", bool(flags))
        flat = flat_text(disk, way)
        want, e1 = outcome(lambda: common.quick_loads(flat, **flags))
        here = os.getcwd()
        with Watch(disk.base) as w:
            got, e2 = outcome(lambda: load(disk, way, flags, rng))
        opened = w.files()
        mon.case(repr([f.text(disk.dir).replace(disk.base, "") for f in disk.root.walk()]) + way + repr(flags), bool(refs))
        mon.count("files_opened", len(opened))
        mon.count("includes", len(refs))
        if way in ("open-relative",):
            mon.count("relative_root")
        if err(e1) != err(e2):
            mon.violation("acceptance", f"flat text: {err(e1)}, tree: {err(e2)}\n{detail(way, flags)}")
            return None
        if e1:
            mon.count("same_error")
        elif common.content(want) != common.content(got):
            r = doc.same(doc.plain(want), doc.plain(got)) or "classes"
            mon.violation("differs", f"{r}\n{detail(way, flags)}")
            return None
        elif disk.root.depth() == 5:
            mon.count("expanded_5")
        expected = sorted(want_files + ([os.path.realpath(disk.path)] if way not in ("load-noname", "loads") else []))
        mon.check(set(opened) == set(expected), "opened", lambda: f"opened {opened}, referenced {expected}\n{detail(way, flags)}")
        mon.check(os.getcwd() == here, "chdir", lambda: f"the working directory became {os.getcwd()}")
    return True


def unit(job, i, rng, mon):
    base = fresh()
    try:
        JOBS[job](mon, rng, base, i)
    finally:
        os.chdir("/")
        dispose(base)


def job_tree(mon, rng, base, i):
    for k in range(3):
        mk = Maker(rng)
        units = units_of(rng, document(rng))
        root = mk.file(mk.cut(units, rng.randint(1, 5)), "root.map")
        disk = Disk(os.path.join(base, str(k)), root)
        disk.store(rng)
        if k == 0 and i < 4:
            mon.sample([[f.path, f.text(disk.dir)] for f in root.walk()])
        observe(mon, rng, disk, rng.sample(WAYS, 4), "tree")


def chain(mk, rng, units, depth):
    """units cut into a chain of exactly that depth, with side branches"""
    if depth == 0:
        return units
    a, b = sorted(rng.randint(0, len(units)) for _ in range(2))
    inner = mk.file(chain(mk, rng, units[a:b], depth - 1))
    before = mk.cut(units[:a], min(depth, 2) if rng.random() < 0.4 and depth > 1 else 0)
    after = mk.cut(units[b:], min(depth, 2) if rng.random() < 0.4 and depth > 1 else 0)
    return before + [Inc(inner, rng)] + after


def job_depth(mon, rng, base, i):
    """depth 0..5 is expanded, 6 and 7 are refused, whatever the branches before"""
    for depth in range(8):
        mk = Maker(rng)
        units = units_of(rng, document(rng, maxdepth=2))
        root = mk.file(chain(mk, rng, units, depth), "root.map")
        assert root.depth() == depth, (root.depth(), depth)
        disk = Disk(os.path.join(base, str(depth)), root)
        disk.store(rng)
        if depth <= 5:
            observe(mon, rng, disk, WAYS, f"depth {depth}")
            continue
        for way in WAYS:
            refused(mon, rng, disk, way, f"depth {depth}", "refused_6")


def refused(mon, rng, disk, way, label, counter):
    flags = flagset(rng)
    with Watch(disk.base) as w:
        try:
            d = load(disk, way, flags, rng)
        except RecursionError as e:
            mon.violation("recursion", f"{label} {way}: {type(e).__name__}")
            return
        except Exception as e:  # noqa: any error will do
            mon.case(repr([f.text(disk.dir).replace(disk.base, "") for f in disk.root.units[0:0]]) + label + way + repr(flags) + disk.root.text(disk.dir))
            mon.count(counter)
            mon.count("error:" + type(e).__name__)
            mon.check(len(w.files()) <= 500, "opened", lambda: f"{label}: {len(w.files())} files were opened before the error")
            return
    mon.violation("accepted", f"{label} {way}: loaded as {common.short(repr(d), 600)}\n" + disk.root.text(disk.dir))


def job_wide(mon, rng, base, i):
    """many includes next to each other, the same file more than once: only depth counts"""
    mk = Maker(rng)
    layers = []
    shared = mk.file(units_of(rng, [gen.Gen(rng, "valid", maxdepth=1, kw_p=0.2).block("layer")]))
    n = rng.choice([6, 12, 30, 60, 150])
    for k in range(n):
        if rng.random() < (0.3 if n < 50 else 0.95):
            layers.append(Inc(shared, rng))
            continue
        u = units_of(rng, [gen.Gen(rng, "valid", maxdepth=1, kw_p=0.2).block("layer")])
        layers.append(Inc(mk.file(chain(mk, rng, u, rng.choice([0, 0, 1, 4]))), rng))
    root = mk.file(["MAP"] + layers + ["END"], "root.map")
    disk = Disk(base, root)
    disk.store(rng)
    observe(mon, rng, disk, WAYS, "wide")


def job_cycle(mon, rng, base, i):
    for n in range(1, 8):
        mk = Maker(rng)
        root = File("root.map", [])
        files = [root] + [mk.file([]) for _ in range(n - 1)]
        # no Python recursion: texts are written as lines
        start = rng.randrange(n)
        for k, f in enumerate(files):
            nxt = files[k + 1] if k + 1 < n else files[start]
            f.units = (["MAP"] if k == 0 else []) + rng.choice([[], ["NAME 'x'"]]) + [Inc(nxt, rng)] * rng.choice([1, 1, 3]) + rng.choice([[], ["END"]])
        disk = Disk(os.path.join(base, str(n)), root)
        for d in disk.decoy_dirs + [os.path.join(disk.dir, "sub")]:
            os.makedirs(d, exist_ok=True)
        for d in ("sub/deep", "../shared", "dir with space", "é"):
            os.makedirs(os.path.join(disk.dir, d), exist_ok=True)
        for f in files:
            disk.write(f)
        for way in rng.sample(WAYS, 3):
            refused(mon, rng, disk, way, f"cycle of {n} from {start}", "cycles")


def job_missing(mon, rng, base, i):
    for k in range(2):
        mk = Maker(rng)
        units = units_of(rng, document(rng))
        root = mk.file(chain(mk, rng, units, rng.randint(1, 4)), "root.map")
        disk = Disk(os.path.join(base, str(k)), root)
        disk.store(rng)
        gone = rng.choice(list(root.walk())[1:])
        fn = os.path.join(disk.dir, gone.path)
        os.remove(fn)
        how = rng.random()
        if how < 0.2:
            os.mkdir(fn)
        for way in rng.sample(WAYS, 3):
            try:
                d = load(disk, way, flagset(rng), rng)
            except OSError as e:
                mon.case(repr([f.text(disk.dir).replace(disk.base, "") for f in disk.root.walk()]) + gone.path + way)
                mon.count("missing")
            except Exception as e:  # noqa
                mon.violation("missing-error", f"{gone.path} is missing: {type(e).__name__}: {e}\n{root.text(disk.dir)}")
            else:
                mon.violation("missing-accepted", f"{gone.path} is missing, {way} gave {common.short(repr(d), 500)}\n{root.text(disk.dir)}")


def job_broken(mon, rng, base, i):
    """trees of texts that do not parse: the same error at the same place"""
    for k in range(2):
        mk = Maker(rng)
        text = mutate.mutant(rng, mutate.source(rng))
        if "include" in text.lower() or "\r" in text:
            continue
        root = mk.file(mk.cut(text.split("\n"), rng.randint(1, 4)), "root.map")
        disk = Disk(os.path.join(base, str(k)), root)
        disk.store(rng)
        observe(mon, rng, disk, rng.sample(WAYS, 3), "mutant")


def job_kept(mon, rng, base, i):
    """without expansion the directives are data; nothing but the root is opened"""
    for k in range(3):
        items = document(rng, bare=rng.random() < 0.5)
        n = 0
        want = {}

        def add(its, path):
            nonlocal n
            for b in its:
                if isinstance(b, Block):
                    names = []
                    if b.type not in ("symbolset",):
                        for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
                            n += 1
                            v = Val("str", rng.choice(["", "sub/", "/abs/dir/", "../", "C:\\maps\\", "./"]) + rng.choice(
                                ["a", "two words", "x#y", "é中", "END", "it", "INCLUDE"]) + str(n) + rng.choice([".map", "", ".inc"]))
                            b.items.insert(rng.randrange(len(b.items) + 1), Attr("include", v))
                    add(b.items, path)

        add(items, ())
        style = rng.random() < 0.5
        text = ("\n".join(doc.render_lines(items, case=rng.choice(["upper", "lower"]), rng=rng, quotes="random")[0]) if style
                else doc.render(items, doc.Style(rng)).text)
        if rng.random() < 0.4 and style:
            text = "\n".join(l + " # note" if l.strip().lower().startswith("include") else l for l in text.split("\n"))
        root = File("root.map", text.split("\n"))
        disk = Disk(os.path.join(base, str(k)), root)
        os.makedirs(disk.dir)
        for d in disk.decoy_dirs + [os.path.join(disk.dir, "sub")]:
            os.makedirs(d, exist_ok=True)
        disk.write(root, text)
        for way in [w for w in WAYS if w != "parse_file"][:]:
            if rng.random() < 0.5:
                continue
            flags = dict(flagset(rng), expand_includes=False)
            with Watch(disk.base) as w:
                d = load(disk, way, flags, rng)
            mon.case(text + way + repr(flags), n > 0)
            mon.count("kept", n)
            opened = [f for f in w.files() if f != os.path.realpath(disk.path)]
            mon.check(not opened, "opened", lambda: f"expand_includes=False opened {opened}\n{text}")
            exp = doc.model(items)
            if way != "load-universal":
                r = doc.same(exp, doc.strip(d))
                if r:
                    mon.violation("kept-differs", f"{way} {r}\n{text}")
                    return
            o = common.options(rng, newlinechar="\n") if rng.random() < 0.5 else dict(common.DEFAULTS)
            o["quote"] = rng.choice("\"'")
            if common.unrepresentable(text, d, o["quote"]):
                mon.count("unrepresentable")
                continue
            import copy

            out = mappyfile.dumps(copy.deepcopy(d), **o)
            a, b = directives(d), written(out)
            if a != b:
                mon.violation("written-differs", f"{way} {o}: kept {a}, written {b}\n{text}\n--- printed\n{out}")
                return
            again = common.loads(out)
            mon.check(directives(again) == a, "again-differs", lambda: f"{directives(again)} was {a}\n{text}\n---\n{out}")
            mon.count("written_back", len(a))


def directives(d):
    """the INCLUDE values of all objects, in document order of printing"""
    out = []

    def go(x):
        if isinstance(x, list):
            for y in x:
                go(y)
        elif isinstance(x, dict):
            for k, v in x.items():
                if doc.is_hidden(k):
                    continue
                if k == "include":
                    out.extend(v)
                elif isinstance(v, (dict, list)):
                    go(v)

    go(d)
    return sorted(out)


def written(out):
    from mfv import reader

    names = []
    toks, _ = reader.tokenize(out)
    for a, b in zip(toks, toks[1:]):
        if a.cls == "word" and a.text.lower() == "include" and b.cls == "str" and a.line == b.line:
            names.append(b.text)
    return sorted(names)


def job_spelling(mon, rng, base, i):
    """the cross product of the ways to write one directive"""
    n = 0
    for kw in ("INCLUDE", "include", "Include"):
        for lead in ("", "  ", "\t", "\t  "):
            for gap in (" ", "\t", "   "):
                for q in ('"', "'", ""):
                    for tail in ("", " ", " # x", "# x", "\t# it's", " #", " # \"q\" 'r'", " ## INCLUDE 'b.map'"):
                        for eol in ("\n", "\r\n"):
                            n += 1
                            if n % 12 != i % 12:
                                continue
                            f = File(rng.choice(["p.map", "sub/p.map", "p"]), ["NAME 'inner'", "STATUS ON"], rng.choice(["\n", "\r\n"]), rng.random() < 0.5)
                            inc = Inc(f, rng)
                            inc.kw, inc.lead, inc.gap, inc.quote, inc.tail, inc.absolute = kw, lead, gap, q, tail, False
                            root = File("root.map", ["MAP", inc, "SIZE 1 2", "END"], eol, rng.random() < 0.5)
                            disk = Disk(os.path.join(base, str(n)), root)
                            disk.store(rng)
                            observe(mon, rng, disk, [rng.choice(WAYS)], f"spelling {inc.line('')!r}")
                            dispose(disk.base)


JOBS = {"tree": job_tree, "depth": job_depth, "wide": job_wide, "cycle": job_cycle, "missing": job_missing, "broken": job_broken,
        "kept": job_kept, "spelling": job_spelling}
