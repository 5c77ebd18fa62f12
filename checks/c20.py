"""C20: file, stream and command-line front ends agree with the string API"""

from __future__ import annotations

import codecs
import copy
import io
import json
import logging
import os
import shutil
import subprocess
import sys
import tempfile

from mfv import common, doc, gen, mutate, vocab
from mfv.common import mappyfile
from mfv.doc import Attr, Block, KV, Val
from mfv.runner import REPO

PROPERTY = "C20"
LEVEL = "exploration"
RULE = (
    "cases are (content, flags or options) for the loaders and writers, and command lines for the program. One text goes through loads, load "
    "(StringIO, text files, nameless streams) and open: equal dictionaries, positions and comments included, or the same refusal; one dictionary "
    "goes through dumps, dump and save with the same options: the same characters, UTF-8 bytes on disk, and open of that file gives every string "
    "back (every code point outside of surrogates is written at least once). format, validate and schema run as processes (the installed program, "
    "and forks that call its entry point); files, lines printed and the exit status are compared with open, save, validate and the schemas of the "
    "API called here. Non-trivial: content is not empty; counted by content and options, or by arguments and file contents."
)
ASSUMPTIONS = [
    "file objects deliver the characters of the file (newline=''), or the text has no carriage return",
    "string values hold neither the quote they are printed in nor a backslash at the end (known findings of C01), and are kept by keywords that take plain strings",
    "wildcards match each file once",
]
EXE = "/opt/venv/bin/mappyfile"


def start(tier):
    common.corpus()


def setup(tier):
    common.fast_lark()
    start(tier)
    import mappyfile.cli  # noqa: for the forks


BLOCKS = 0x110000 // 0x400


def plan(tier):
    big = tier == "thorough"
    return [
        ("points", BLOCKS // 8, 8),
        ("loaders", 16000 if big else 700, 10),
        ("writers", 12000 if big else 500, 10),
        ("corpus", len(common.corpus()), 8),
        ("sizes", 200 if big else 24, 2),
        ("counts", 320 if big else 48, 2),
        ("validate", 4000 if big else 160, 4),
        ("format", 4000 if big else 180, 4),
        ("schema", 60 if big else 24, 2),
    ]


def REQUIRED(tier):
    return {"evaluations": 3500, "loaded": 4000, "written": 3000, "code_points": 1100000, "runs": 130, "forks": 110, "status_zero": 15,
            "status_exact": 60, "status_large": 8, "unparseable_files": 30, "messages": 3000, "formatted": 150, "schemas": 24}


# -------------------------------------------------------------------------------------------------------- helpers
def folder():
    return tempfile.mkdtemp(dir=common.scratch())


def put(path, text):
    with open(path, "wb") as f:
        f.write(text.encode("utf-8") if isinstance(text, str) else text)
    return path


def get(path):
    with open(path, "rb") as f:
        return f.read()


def attempt(f):
    """('ok', value) or ('refused', exception type, line, column)"""
    try:
        return "ok", f()
    except (*common.LARK_ERRORS, OSError, ValueError) as e:
        return "refused", type(e).__name__, getattr(e, "line", None), getattr(e, "column", None)


def program(args, cwd, executable=True, env=None):
    """run mappyfile with the arguments: (status, stdout, stderr)"""
    if executable:
        if REPO == "/repo" and os.path.exists(EXE):
            cmd = [EXE]
        else:
            cmd = [sys.executable, "-c", f"import sys; sys.path.insert(0, {REPO!r}); sys.argv[0] = 'mappyfile'; from mappyfile.cli import main; sys.exit(main())"]
        e = dict(os.environ, PYTHONIOENCODING="utf-8")
        e.update(env or {})
        p = subprocess.run(cmd + list(args), cwd=cwd, capture_output=True, timeout=120, env=e)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    return fork(args, cwd)


def fork(args, cwd):
    """the entry point in a forked process: as the program, without its start"""
    sys.stdout.flush()
    sys.stderr.flush()
    fo, fe = tempfile.TemporaryFile(dir=common.scratch()), tempfile.TemporaryFile(dir=common.scratch())
    pid = os.fork()
    if pid == 0:
        status = 99
        try:
            os.dup2(fo.fileno(), 1)
            os.dup2(fe.fileno(), 2)
            sys.stdout = io.TextIOWrapper(open(1, "wb", closefd=False), encoding="utf-8", write_through=True)
            sys.stderr = io.TextIOWrapper(open(2, "wb", closefd=False), encoding="utf-8", write_through=True)
            logging.disable(logging.NOTSET)
            logging.root.handlers[:] = []
            os.chdir(cwd)
            sys.argv = ["mappyfile"] + list(args)
            try:
                import mappyfile.cli

                sys.exit(mappyfile.cli.main())
            except SystemExit as e:
                # what the interpreter makes of it
                if e.code is None:
                    status = 0
                elif isinstance(e.code, int):
                    status = e.code & 0xFF
                else:
                    print(e.code, file=sys.stderr)
                    status = 1
            except BaseException:  # noqa
                import traceback

                traceback.print_exc()
                status = 1
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(status)
    _, st = os.waitpid(pid, 0)
    fo.seek(0)
    fe.seek(0)
    out, err = fo.read().decode("utf-8", "replace"), fe.read().decode("utf-8", "replace")
    fo.close()
    fe.close()
    return os.waitstatus_to_exitcode(st), out, err


def run(mon, args, cwd, rng, share=0.5):
    ex = rng.random() < share
    mon.count("runs" if ex else "forks")
    return program(args, cwd, ex)


# --------------------------------------------------------------------------------------------------------- loaders
class Stream(io.StringIO):
    """no name attribute"""


class Named(io.StringIO):
    def __init__(self, text, name):
        super().__init__(text, newline="")
        self.name = name


def loaders(mon, text, flags, label, rng, expand=False):
    """all the ways of loading one text"""
    where = folder()
    try:
        path = put(os.path.join(where, rng.choice(["a.map", "b c.map", "é.map", "中𝄞.map", "noext"])), text)
        flags = dict(flags, expand_includes=expand)
        first = attempt(lambda: mappyfile.loads(text, **flags))
        mon.case(text + repr(flags), len(text.strip()) > 0)
        ways = {
            "open": lambda: mappyfile.open(path, **flags),
            "load StringIO": lambda: mappyfile.load(io.StringIO(text, newline=""), **flags),
            "load named": lambda: mappyfile.load(Named(text, path), **flags),
        }

        def from_file():
            with open(path, encoding="utf-8", newline="") as f:
                return mappyfile.load(f, **flags)

        def from_plain_file():
            with open(path, encoding="utf-8") as f:
                return mappyfile.load(f, **flags)

        def from_codecs():
            with codecs.open(path, "r", encoding="utf-8") as f:
                return mappyfile.load(f, **flags)

        def from_descriptor():
            # name is a number
            fd = os.open(path, os.O_RDONLY)
            with os.fdopen(fd, encoding="utf-8", newline="") as f:
                return mappyfile.load(f, **flags)

        ways.update({"load file": from_file, "load codecs file": from_codecs, "load descriptor": from_descriptor})
        if "\r" not in text:
            ways["load plain file"] = from_plain_file
        names = list(ways) if mon.tier != "quick" else ["open", "load StringIO"] + rng.sample(list(ways)[2:], 3)
        for n in names:
            got = attempt(ways[n])
            mon.count("loaded")
            if got[0] != first[0] or got[0] == "refused" and got != first:
                mon.violation("load-accept", f"{label} {flags}: loads gave {common.short(repr(first), 300)} and {n} {common.short(repr(got), 300)}\n{text}")
                return None
            if got[0] == "refused":
                mon.count("refused_alike")
            elif common.snapshot(got[1]) and common.content(got[1]) != common.content(first[1]):
                mon.violation("load-differs", f"{label} {flags}: {n} and loads differ: {doc.same(doc.plain(first[1]), got[1])}\n{text}")
                return None
        return first[1] if first[0] == "ok" else None
    finally:
        shutil.rmtree(where, ignore_errors=True)


# --------------------------------------------------------------------------------------------------------- writers
def writers(mon, d, o, label, rng):
    """all the ways of writing one dictionary; the text, or None when it is refused"""
    where = folder()
    try:
        try:
            text = mappyfile.dumps(copy.deepcopy(d), **o)
        except Exception as e:  # noqa: refused by all
            text = e
        pos = [o.get(k, common.DEFAULTS[k]) for k in common.DEFAULTS]
        path = os.path.join(where, rng.choice(["out.map", "o ut.map", "ö.map"]))
        if rng.random() < 0.5:
            put(path, "left over\n" * 5000)

        def save(**kw):
            mappyfile.save(copy.deepcopy(d), path, **kw)
            return get(path)

        def save_positional():
            mappyfile.save(copy.deepcopy(d), path, *pos)
            return get(path)

        def dump(fp, *a, **kw):
            mappyfile.dump(copy.deepcopy(d), fp, *a, **kw)
            return fp.getvalue().encode("utf-8")

        def dump_file():
            with open(path, "w", encoding="utf-8", newline="") as f:
                mappyfile.dump(copy.deepcopy(d), f, **o)
            return get(path)

        ways = {
            "save": lambda: save(**o),
            "dump": lambda: dump(io.StringIO(newline=""), **o),
            "save positional": save_positional,
            "dump positional": lambda: dump(io.StringIO(newline=""), *pos),
            "dumps positional": lambda: mappyfile.dumps(copy.deepcopy(d), *pos).encode("utf-8"),
            "dump file": dump_file,
        }
        mon.case(repr((common.content(d), sorted(o.items()))))
        for n, f in ways.items():
            try:
                got = f()
            except Exception as e:  # noqa
                got = e
            mon.count("written")
            if isinstance(text, Exception) or isinstance(got, Exception):
                if type(text) is not type(got):
                    mon.violation("write-refused", f"{label} {o}: dumps gave {text!r} and {n} {got!r}")
                    return None
                mon.count("writes_refused")
            elif got != text.encode("utf-8"):
                mon.violation("write-differs", f"{label} {o}: {n} wrote\n{got!r}\nand dumps\n{text.encode('utf-8')!r}")
                return None
        if isinstance(text, Exception):
            return None
        # appended by dump to what is there, and nothing else
        fp = io.StringIO("before", newline="")
        fp.seek(0, 2)
        mappyfile.dump(copy.deepcopy(d), fp, **o)
        if fp.getvalue() != "before" + text:
            mon.violation("write-differs", f"{label} {o}: dump into a stream that holds text\n{fp.getvalue()}")
            return None
        return text
    finally:
        shutil.rmtree(where, ignore_errors=True)


def cycle(mon, d, o, label):
    """save, then open: the same dictionary"""
    where = folder()
    try:
        path = os.path.join(where, "x.map")
        mappyfile.save(copy.deepcopy(d), path, **o)
        mon.count("cycles")
        try:
            d2 = mappyfile.open(path, expand_includes=False)
        except common.LARK_ERRORS as e:
            mon.violation("cycle", f"{label} {o}: {common.where(e)}\n{get(path).decode('utf-8')}")
            return False
        r = common.rt_same(d, d2)
        if r:
            mon.violation("cycle", f"{label} {o}: {r[1]}\n{ascii(get(path).decode('utf-8'))[:3000]}")
            return False
        return True
    finally:
        shutil.rmtree(where, ignore_errors=True)


def point_block(mon, n):
    """1024 code points in the strings of one document"""
    cps = [c for c in range(n * 0x400, (n + 1) * 0x400) if not 0xD800 <= c <= 0xDFFF and chr(c) not in '"\\']
    if not cps:
        return
    d = common.loads("MAP NAME 'x' LAYER NAME 'y' TYPE POINT METADATA 'k' 'v' END END END")
    layer = d["layers"][0]
    for i in range(0, len(cps), 64):
        s = "".join(chr(c) for c in cps[i:i + 64])
        layer["metadata"][f"k{i}"] = "a" + s + "z"
    layer["name"] = "a" + "".join(chr(c) for c in cps[:512]) + "z"
    layer["group"] = "b" + "".join(chr(c) for c in cps[512:]) + "y"
    d["name"] = "n" + chr(cps[0]) + "n" + chr(cps[-1]) + "n"
    layer["data"] = [chr(cps[len(cps) // 2]) + "x"] if False else "x" + chr(cps[len(cps) // 2]) + "x"
    layer["processing"] = ["P=" + chr(cps[1]), "Q=" + chr(cps[-2])]
    mon.count("code_points", len(cps))
    mon.case(f"code points from {n * 0x400:x}")
    if cycle(mon, d, {}, f"code points from {n * 0x400:x}") and n % 8 == 0:
        cycle(mon, d, {"newlinechar": "\r\n", "align_values": True, "end_comment": True}, f"code points from {n * 0x400:x}")


# ------------------------------------------------------------------------------------------------------- documents
ASTRAL = ["𝄞", "😀", "𐍈", "\U0010ffff", "\ufeff", "\u2028", "\x85", "é", "ß", "İ", "中文", "\u0301a", "\u200b", "\xa0", "ﬀ", "Ω", "\x7f", "\x01", "\ue000", "\ufffd", "‮x"]


def document(rng, mode="valid", **kw):
    g = gen.Gen(rng, mode, maxdepth=rng.choice([1, 2, 3]), avoid_quote='"\'', dq=False)
    return g.document(kw.get("type_"))


def spice(d, rng):
    """non-ASCII strings into a dictionary"""
    for _, x in list(common.objects_of(d)):
        t = x.get("__type__")
        if t in vocab.KV_BLOCKS:
            for _ in range(rng.randint(0, 2)):
                x["key" + rng.choice(["", "é", "中", "𝄞"]).lower()] = "".join(rng.choice(ASTRAL + ["a", " ", "0"]) for _ in range(rng.randint(1, 8)))
        for k in ("name", "group", "title", "template", "description"):
            s = vocab.slot(t, k)
            if s is not None and s.plain_string and rng.random() < 0.7:
                x[k] = "".join(rng.choice(ASTRAL + ["a", " ", "b"]) for _ in range(rng.randint(1, 8)))
    return d


def text_of(rng, mode="valid", **kw):
    st = doc.Style(rng, comments=rng.random() < 0.4)
    return doc.render(document(rng, mode, **kw), st).text


# ----------------------------------------------------------------------------------------------------- the program
def invalid(n, rng):
    """a Mapfile with n validation messages"""
    lines = ["MAP", '  NAME "é𝄞"']
    for i in range(n):
        lines += ["  LAYER", f'    NAME "l{i}"', "    TYPE POINT", rng.choice(["    STATUS wrong", "    MINSCALEDENOM 'x'", "    UNITS nothing", "    COLOR 1 2 3", "    DEBUG 77"]), "  END"]
    return "\n".join(lines + ["END"]) + "\n"


UNPARSEABLE = ["MAP", "MAP NAME 'x' END END", "LAYER NAME", "MAP LAYER TYPE POINT END", "", "MAP\nNAME \"x\nEND", b"MAP NAME '\xff\xfe' END", "MAP INCLUDE 'missing.map' END",
               "LAYER EXPRESSION ([a] = ) END", b"MAP # \xe9\nEND", "END"]
VERSIONS = [None, "4.0", "5.6", "6.0", "7.0", "7.2", "7.6", "8", "8.0", "8.2", "8.4", "8.6", "10"]


def expectation(path, expand, version):
    """the messages of a file, or None for one that cannot be loaded"""
    try:
        d = mappyfile.open(path, expand_includes=expand, include_position=True)
    except Exception:  # noqa
        return None
    return mappyfile.validate(d, version)


def check_validate(mon, where, names, args, rng, expand, version, label, share=0.5):
    """run validate on files of a folder; names are those that the arguments match"""
    exp = {}
    for n in names:
        exp[n] = expectation(os.path.join(where, n), expand, 8.2 if version is None else float(version))
    problems = sum(1 if m is None else len(m) for m in exp.values())
    argv = rng.choice([[], [], ["-v"], ["-q"], ["-vv"]]) + ["validate"] + args
    if version is not None:
        argv.insert(rng.randint(argv.index("validate") + 1, len(argv)), f"--version={version}")
    if not expand:
        argv.append("--no-expand")
    elif rng.random() < 0.2:
        argv.append("--expand")
    status, out, err = run(mon, argv, where, rng, share)
    mon.case(repr((argv, [(n, get(os.path.join(where, n))) for n in names])))
    mon.count("unparseable_files", sum(1 for m in exp.values() if m is None))
    mon.count("messages", sum(len(m) for m in exp.values() if m))

    def detail(what):
        return (f"{label} mappyfile {' '.join(argv)}: {what}; status {status}, expected problems {[(n, None if m is None else len(m)) for n, m in exp.items()]}\n"
                f"stdout:\n{common.short(out, 1500)}\nstderr:\n{common.short(err, 600)}")

    if (status == 0) != (problems == 0):
        mon.violation("status", detail(f"exits with {status} and there are {problems} problems"))
        return False
    if problems <= 255:
        mon.count("status_zero" if problems == 0 else "status_exact")
        if status != problems:
            mon.violation("status-count", detail(f"exits with {status} and there are {problems} problems"))
            return False
    else:
        mon.count("status_large")
    lines = [x for x in out.split("\n") if x]
    left = list(lines)
    for n, m in exp.items():
        for x in m or []:
            hit = next((k for k, t in enumerate(left) if n in t and str(x["line"]) in t and x["message"] in t and one_line(x["error"]) in t), None)
            if hit is None:
                mon.violation("message", detail(f"no line for {x} of {n}"))
                return False
            left.pop(hit)
    # what is left says nothing about a position
    if any("(Line:" in t for t in left):
        mon.violation("message-extra", detail(f"lines that are no messages of validate: {[t for t in left if '(Line:' in t][:3]}"))
        return False
    return True


def one_line(s):
    return s.split("\n")[0]


def counts(mon, rng, i):
    """numbers of problems around the limits of an exit status"""
    totals = [0, 1, 2, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513, 768]
    total = totals[i % len(totals)] if i < 2 * len(totals) else rng.randint(1, 300)
    where = folder()
    try:
        bad = rng.choice([0, 0, 1, 3]) if total >= 3 else 0
        left = total - bad
        names = []
        for k in range(rng.choice([1, 1, 2, 5])):
            n = left if k == 0 and i < len(totals) else rng.randint(0, left)
            left -= n
            names.append(f"f{k}.map")
            put(os.path.join(where, names[-1]), invalid(n, rng))
        if left:
            names.append("rest.map")
            put(os.path.join(where, names[-1]), invalid(left, rng))
        for k in range(bad):
            names.append(f"bad{k}.map")
            put(os.path.join(where, names[-1]), rng.choice(UNPARSEABLE))
        have = sum(1 if m is None else len(m) for m in (expectation(os.path.join(where, n), True, 8.2) for n in names))
        if have != total:
            mon.count("other_total")
        mon.count(f"total_{'large' if have > 255 else 'small'}")
        check_validate(mon, where, names, rng.choice([["*.map"], list(names)]), rng, True, None, f"{total} problems", 0.6)
    finally:
        shutil.rmtree(where, ignore_errors=True)


def sets(mon, rng):
    """sets of valid, invalid and unparseable files"""
    where = folder()
    try:
        names = []
        for k in range(rng.choice([1, 1, 2, 3, 5])):
            n = rng.choice([f"f{k}.map", f"file {k}.map", f"é{k}.map", f"sub/g{k}.map", f"𝄞{k}.map"])
            os.makedirs(os.path.join(where, "sub"), exist_ok=True)
            x = rng.random()
            if x < 0.4:
                t = text_of(rng)
            elif x < 0.65:
                t = text_of(rng, "loose")
            elif x < 0.75:
                t = invalid(rng.randint(0, 4), rng)
            elif x < 0.82:
                t = mutate.mutant(rng, mutate.source(rng))
            elif x < 0.88:
                put(os.path.join(where, "sub", "part.inc"), rng.choice(["LAYER NAME 'x' TYPE POINT END\n", "LAYER TYPE nothing END\n", "LAYER", "INCLUDE 'none.inc'"]))
                t = "MAP\nINCLUDE '%s'\nEND\n" % ("part.inc" if n.startswith("sub/") else "sub/part.inc")
            else:
                t = rng.choice(UNPARSEABLE)
            put(os.path.join(where, n), t if isinstance(t, bytes) else t.encode("utf-8", "surrogatepass"))
            names.append(n)
        os.makedirs(os.path.join(where, "folder.map"), exist_ok=True)  # no Mapfile
        top, sub = [n for n in names if "/" not in n], [n for n in names if "/" in n]
        x = rng.random()
        if x < 0.4:
            args = list(names)
            rng.shuffle(args)
        elif x < 0.7:
            args = ["*.map", "sub/*.map"] if rng.random() < 0.5 else ["*.map"] + sub
        else:
            args = ["*.map"]
            names = top
        if rng.random() < 0.2:
            args.append("nothing-here.map")
        if not names:
            return
        check_validate(mon, where, names, args, rng, rng.random() < 0.7, rng.choice(VERSIONS), "set")
    finally:
        shutil.rmtree(where, ignore_errors=True)


SPELL = {"\t": ["\\t", "\t"], "\n": ["\\n", "\n"], "\r\n": ["\\r\\n", "\r\n"], "\r": ["\\r", "\r"], "\n\n": ["\\n\\n"], "'": ["'", "\\'"], '"': ['"', '\\"']}


def check_format(mon, rng, i):
    where = folder()
    try:
        x = rng.random()
        if x < 0.6:
            text = text_of(rng, rng.choice(["valid", "loose"]))
        elif x < 0.75:
            text = mappyfile.dumps(spice(common.loads(text_of(rng)), rng)) if rng.random() < 0.9 else "MAP END"
        elif x < 0.85:
            text = rng.choice(common.corpus())[1]
        elif x < 0.93:
            text = "MAP # top\nNAME 'é𝄞' /* c */\nINCLUDE \"part one.inc\"\nEND # end\n"
        else:
            text = rng.choice(UNPARSEABLE)
        put(os.path.join(where, "part one.inc"), "LAYER # inc\n  NAME 'x y'\n  TYPE POINT\nEND\n")
        src = put(os.path.join(where, rng.choice(["in.map", "in put.map", "eín.map"])), text)
        o, argv, flags = {}, [], {"expand_includes": True, "include_comments": False}
        for name, values in (("indent", common.INDENTS), ("spacer", common.SPACERS), ("quote", common.QUOTES), ("newlinechar", common.NEWLINES)):
            if rng.random() < 0.6:
                v = rng.choice(values)
                o[name] = v
                w = rng.choice(SPELL.get(v, [str(v)]))
                argv += [f"--{name}={w}"] if rng.random() < 0.6 or w == "" else [f"--{name}", w]
        if rng.random() < 0.6:
            flags["expand_includes"] = rng.random() < 0.5
            argv.append("--expand" if flags["expand_includes"] else "--no-expand")
        if rng.random() < 0.6:
            flags["include_comments"] = rng.random() < 0.5
            argv.append("--comments" if flags["include_comments"] else "--no-comments")
        ref = os.path.join(where, "ref.out")
        try:
            mappyfile.save(mappyfile.open(src, **flags), ref, **o)
            want = get(ref)
        except Exception as e:  # noqa
            want = e
        inplace = rng.random() < 0.15
        before = get(src) if inplace else rng.choice([None, b"old text\n" * 3000])
        dst = src if inplace else os.path.join(where, rng.choice(["out.map", "ou t.map", "öut"]))
        if before is not None and not inplace:
            put(dst, before)
        paths = [os.path.basename(src), os.path.basename(dst)]
        args = ["format"] + (argv + paths if rng.random() < 0.5 else paths + argv)
        status, out, err = run(mon, args, where, rng)
        mon.case(repr((args, text)))
        got = get(dst) if os.path.exists(dst) else None

        def detail(what):
            return f"mappyfile {args}: {what}; status {status}\n--- input\n{text!r}\n--- written\n{got!r}\n--- expected\n{want!r}\nstderr:\n{common.short(err, 600)}"

        if isinstance(want, Exception):
            mon.count("format_refused")
            if status == 0 or got != before and not (isinstance(want, (AssertionError, TypeError))):
                mon.violation("format-refused", detail(f"open and save raise {want!r}"))
            return
        mon.count("formatted")
        if status != 0:
            mon.violation("format-status", detail("failed"))
        elif got != want:
            mon.violation("format-differs", detail("differs from save(open())"))
    finally:
        shutil.rmtree(where, ignore_errors=True)


def check_schema(mon, rng, i):
    from mappyfile.validator import Validator

    where = folder()
    try:
        v = [None, "4.0", "5.0", "5.6", "6.0", "6.2", "6.4", "7.0", "7.2", "7.4", "7.6", "8.0", "8.2", "8.4", "8.6", "8", "7", "9.1", "4.6", "5.4"][i % 20]
        dst = os.path.join(where, rng.choice(["schema.json", "s ch.json", "é"]))
        if rng.random() < 0.4:
            put(dst, "x" * 600000)
        args = ["schema", os.path.basename(dst)]
        if v is not None:
            args[1:1] = [f"--version={v}"] if rng.random() < 0.6 else ["--version", v]
            if rng.random() < 0.4:
                args = ["schema", os.path.basename(dst)] + args[1:-1]
        status, out, err = run(mon, args, where, rng, 0.7)
        mon.count("schemas")
        mon.case(repr((args, i)))
        api = Validator().get_versioned_schema(float(v)) if v is not None else Validator().get_versioned_schema(None)
        want = json.loads(json.dumps(api, sort_keys=True, indent=4))  # (the indented form copes with the references in it)
        try:
            got = json.loads(get(dst).decode("utf-8"))
        except (OSError, ValueError) as e:
            mon.violation("schema-json", f"mappyfile {args}: status {status}, {e!r}\n{err}")
            return
        if status != 0:
            mon.violation("schema-status", f"mappyfile {args}: status {status}\n{err}")
        elif got != want:
            mon.violation("schema-differs", f"mappyfile {args}: the JSON differs from get_versioned_schema({v}) at {first_difference(got, want)}")
    finally:
        shutil.rmtree(where, ignore_errors=True)


def first_difference(a, b, path=""):
    if type(a) is not type(b):
        return f"{path}: {a!r} {b!r}"[:300]
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return f"{path}/{k}: only in the {'file' if k in a else 'API'}"
            r = first_difference(a[k], b[k], f"{path}/{k}")
            if r:
                return r
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} and {len(b)} items"
        for n, (x, y) in enumerate(zip(a, b)):
            r = first_difference(x, y, f"{path}[{n}]")
            if r:
                return r
        return None
    return None if a == b else f"{path}: {a!r} {b!r}"


# ------------------------------------------------------------------------------------------------------------ jobs
FLAGS = [{}, {"include_position": True}, {"include_comments": True}, {"include_position": True, "include_comments": True}]


def unit(job, i, rng, mon):
    if job == "points":
        for n in range(i * 8, i * 8 + 8):
            point_block(mon, n)
    elif job == "loaders":
        x = rng.random()
        if x < 0.6:
            text = text_of(rng, rng.choice(["valid", "loose"]))
        elif x < 0.75:
            text = mutate.mutant(rng, mutate.source(rng))
        elif x < 0.9:
            try:
                text = mappyfile.dumps(spice(common.loads(text_of(rng)), rng), newlinechar=rng.choice(["\n", "\r\n", "\r"]))
            except (ValueError, AssertionError):
                return
        else:
            text = rng.choice(["\ufeff", "", " ", "\r\n"]) + text_of(rng) + rng.choice(["", "\n", "\r\n", "# é", "\x1a", "\0", "\ufeff"])
        try:
            text.encode("utf-8")
        except UnicodeEncodeError:
            return
        loaders(mon, text, rng.choice(FLAGS), "random", rng, expand="include" not in text.lower() and rng.random() < 0.5)
    elif job == "corpus":
        fn, text = common.corpus()[i]
        d = loaders(mon, text, rng.choice(FLAGS), fn, rng)
        if d is not None:
            writers(mon, d, common.options(rng), fn, rng)
    elif job == "writers":
        d = common.loads(text_of(rng, rng.choice(["valid", "valid", "loose"])), **rng.choice(FLAGS))
        if not isinstance(d, dict):
            return
        spiced = rng.random() < 0.7
        if spiced:
            spice(d, rng)
        o = common.options(rng)
        if rng.random() < 0.3:
            o = {k: v for k, v in o.items() if rng.random() < 0.5}
        writers(mon, d, o, "random", rng)
        # all the strings survive
        d = spice(common.loads(text_of(rng)), rng)
        if isinstance(d, dict) and not any("\\" in s or "'" in s or '"' in s for s in common.strings_of(d)):
            cycle(mon, d, {k: v for k, v in common.options(rng).items() if k not in ("separate_complex_types",)}, "random")
    elif job == "sizes":
        # characters of several bytes across the boundaries of buffers
        c = rng.choice(["é", "中", "😀", "a😀", "é中😀"])
        n = rng.choice([4096, 8192, 16384, 65536, 131072]) + rng.randint(-6, 6)
        d = common.loads("LAYER NAME 'x' END")
        d["name"] = "p" * rng.randint(0, 5) + c * (n // len(c))
        d["group"] = c * rng.randint(1, 5000)
        writers(mon, d, {}, "size", rng)
        if cycle(mon, d, {}, "size"):
            loaders(mon, mappyfile.dumps(d), {}, "size", rng)
        many = common.loads("MAP END")
        for k in range(rng.choice([50, 400])):
            x = common.loads("LAYER TYPE POINT END")
            x["name"] = c * rng.randint(0, 9) + str(k)
            many["layers"].append(x)
        cycle(mon, many, {}, "many")
    elif job == "counts":
        counts(mon, rng, i)
    elif job == "validate":
        sets(mon, rng)
    elif job == "format":
        check_format(mon, rng, i)
    elif job == "schema":
        check_schema(mon, rng, i)
