"""
The Mapfile vocabulary, read from the FROZEN schema copy in data/schemas.

Nothing here imports mappyfile: a change of the schemas, tables or grammar in
/repo therefore shows up as a disagreement with this module.

`python -m mfv.vocab --freeze` refreshes the frozen copy (done by hand, reviewed).
"""
import json
import os
import sys
from collections import OrderedDict

HERE = os.path.dirname(os.path.abspath(__file__))
DATA = os.path.join(os.path.dirname(HERE), "data")
SCHEMA_DIR = os.path.join(DATA, "schemas")

# the 19 block types of the grammar, plus the SYMBOLSET root
TYPES = """class cluster composite feature grid join label layer leader legend map
outputformat querymap reference scalebar scaletoken style symbol web""".split()
ROOT_TYPES = TYPES + ["symbolset"]

SINGLETONS = set(
    "cluster grid leader legend querymap reference scalebar web".split()
)
PLURALS = {
    "map": "maps",
    "class": "classes",
    "composite": "composites",
    "feature": "features",
    "join": "joins",
    "label": "labels",
    "layer": "layers",
    "outputformat": "outputformats",
    "scaletoken": "scaletokens",
    "style": "styles",
    "symbol": "symbols",
}
KV_BLOCKS = ("metadata", "validation", "values", "connectionoptions")
REPEATED = ("processing", "formatoption", "include", "compfilter")
OBJECT_LISTS = set(PLURALS.values())

# words which can never be bare values: they open/close blocks or are typed
RESERVED = set(TYPES) | set(KV_BLOCKS) | {
    "symbolset", "projection", "points", "pattern", "config",
    "end", "true", "false", "null", "not",
}

# keywords which a SYMBOL block knows (SYMBOL followed by one of these opens a block)
SYMBOL_KEYWORDS = set(
    """anchorpoint antialias backgroundcolor character filled font image include
    name color type points transparent""".split()
)


def raw_schema(name):
    if not name.endswith(".json"):
        name += ".json"
    with open(os.path.join(SCHEMA_DIR, name), encoding="utf-8") as f:
        return json.load(f, object_pairs_hook=OrderedDict)


_cache = {}


def schema(name):
    """a schema with all the $refs expanded (siblings of $ref are ignored: draft 4)"""
    if not name.endswith(".json"):
        name += ".json"
    if name not in _cache:
        _cache[name] = _expand(raw_schema(name))
    return _cache[name]


def _expand(s):
    if isinstance(s, dict):
        if "$ref" in s and isinstance(s["$ref"], str):
            return schema(s["$ref"])
        return OrderedDict((k, _expand(v)) for k, v in s.items())
    if isinstance(s, list):
        return [_expand(v) for v in s]
    return s


def props(type_):
    return schema(type_)["properties"]


INF = 1e9


class Alt:
    """one flattened alternative of a keyword's schema"""

    __slots__ = ("kind", "schema", "minv", "maxv", "extra", "n")

    def __init__(self, kind, s, minv, maxv, extra):
        self.kind, self.schema, self.minv, self.maxv = kind, s, minv, maxv
        self.extra = extra  # schemas that also apply (siblings of oneOf/anyOf)

    def __repr__(self):
        return f"Alt({self.kind},{dict(self.schema)},{self.minv},{self.maxv})"


def version_range(s):
    md = s.get("metadata") if isinstance(s, dict) else None
    if isinstance(md, dict):
        return md.get("minVersion", 0.0), md.get("maxVersion", INF)
    return 0.0, INF


def _kind(s):
    if "enum" in s:
        return "enum"
    t = s.get("type")
    if t == "string":
        p = s.get("pattern")
        if p is None:
            return "string"
        if p.startswith("^\\["):
            return "bind"
        if p.startswith("^\\("):
            return "expr"
        if p.startswith("^/"):
            return "regex"
        if p.startswith("^#"):
            return "hex"
        if p.startswith("^&"):
            return "charref"
        return "pattern"
    if t in ("integer", "number", "boolean", "array", "object"):
        return t
    raise ValueError(s)


def flatten(s, minv=0.0, maxv=INF, extra=()):
    a, b = version_range(s)
    minv, maxv = max(minv, a), min(maxv, b)
    for k in ("oneOf", "anyOf", "allOf"):
        if k in s:
            rest = {
                x: y
                for x, y in s.items()
                if x in ("minimum", "maximum", "exclusiveMinimum")
            }
            out = []
            for o in s[k]:
                out += flatten(o, minv, maxv, extra + ((rest,) if rest else ()))
            return out
    return [Alt(_kind(s), s, minv, maxv, extra)]


class Slot:
    """a keyword of a type"""

    def __init__(self, type_, kw, s):
        self.type, self.kw, self.schema = type_, kw, s
        self.minv, self.maxv = version_range(s)
        self.child = None
        if kw in KV_BLOCKS:
            self.cat = "kv"
        elif kw == "config":
            self.cat = "config"
        elif kw == "projection":
            self.cat = "projection"
        elif kw == "points":
            self.cat = "points"
        elif kw == "pattern":
            self.cat = "pattern"
        elif kw in REPEATED:
            self.cat = "repeated"
        else:
            child = self._child(s)
            if child:
                self.cat, self.child = child
            else:
                self.cat = "simple"
        self.alts = flatten(s) if self.cat == "simple" else []

    def _child(self, s):
        if "allOf" in s and len(s["allOf"]) == 1:
            return self._child(s["allOf"][0])
        p = s.get("properties")
        if p and "__type__" in p:
            return "singleton", p["__type__"]["enum"][0]
        if s.get("type") == "array" and isinstance(s.get("items"), dict):
            p = s["items"].get("properties")
            if p and "__type__" in p:
                return "list", p["__type__"]["enum"][0]
        return None

    # facts used by the lexical class oracle
    @property
    def plain_string(self):
        return self.schema.get("type") == "string" and not self.enums

    @property
    def enums(self):
        out = []
        for a in self.alts:
            if a.kind == "enum":
                out += [str(v).lower() for v in a.schema["enum"]]
        return out

    @property
    def free_string(self):
        """is there an alternative that takes any (or patterned) string?"""
        return any(
            a.kind in ("string", "bind", "expr", "regex", "hex", "charref", "pattern")
            for a in self.alts
        )

    @property
    def expression(self):
        return any(
            a.kind == "expr" and a.schema.get("description") == "expression"
            for a in self.alts
        )


SLOTS = OrderedDict()
for _t in TYPES:
    SLOTS[_t] = OrderedDict()
    for _k, _s in props(_t).items():
        if not (_k.startswith("__") and _k.endswith("__")):
            SLOTS[_t][_k] = Slot(_t, _k, _s)
SLOTS["symbolset"] = OrderedDict(
    symbols=Slot("symbolset", "symbols", props("symbolset")["symbols"])
)


def slots_from(folder, types=TYPES):
    """{type: {keyword: Slot}} from another folder of schemas; types without a schema are left out"""
    docs = {}

    def load(name):
        if not name.endswith(".json"):
            name += ".json"
        if name not in docs:
            with open(os.path.join(folder, name), encoding="utf-8") as f:
                docs[name] = expand(json.load(f, object_pairs_hook=OrderedDict))
        return docs[name]

    def expand(s):
        if isinstance(s, dict):
            if "$ref" in s and isinstance(s["$ref"], str):
                return load(s["$ref"])
            return OrderedDict((k, expand(v)) for k, v in s.items())
        return [expand(v) for v in s] if isinstance(s, list) else s

    out = OrderedDict()
    for t in types:
        if os.path.exists(os.path.join(folder, t + ".json")):
            out[t] = OrderedDict((k, Slot(t, k, v)) for k, v in load(t)["properties"].items()
                                 if not (k.startswith("__") and k.endswith("__")))
    return out


def slot(type_, kw):
    return SLOTS.get(type_, {}).get(kw)


REQUIRED = {t: list(schema(t).get("required", [])) for t in ROOT_TYPES}

# parent contexts: type -> [(parent type, key, is list)]
PARENTS = {t: [] for t in ROOT_TYPES}
for _t, _slots in SLOTS.items():
    for _k, _sl in _slots.items():
        if _sl.cat in ("singleton", "list"):
            PARENTS[_sl.child].append((_t, _k, _sl.cat == "list"))


def slots_of(cat):
    return [s for t in SLOTS.values() for s in t.values() if s.cat == cat]


if __name__ == "__main__":
    if "--freeze" in sys.argv:
        import glob
        import shutil

        for f in glob.glob("/repo/mappyfile/schemas/*.json"):
            shutil.copy(f, SCHEMA_DIR)
    for t in SLOTS:
        print(t, [(k, s.cat, s.child or [a.kind for a in s.alts]) for k, s in SLOTS[t].items()])
    print(PARENTS)
