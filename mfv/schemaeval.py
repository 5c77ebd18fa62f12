"""
An evaluator of the part of JSON schema draft 4 that the Mapfile schemas use, with MapServer versions. Uses neither
jsonschema nor mappyfile code; the schema documents are read from a folder (the live or the frozen one).

errors(...) returns the paths of the errors, alternatives (oneOf, anyOf) counting as one error of the value they
judge.
"""

from __future__ import annotations

import json
import os
import re

from . import vocab
from .runner import REPO

LIVE = os.path.join(REPO, "mappyfile", "schemas")
KNOWN = {
    "type", "metadata", "$ref", "items", "default", "enum", "minimum", "description", "oneOf", "additionalProperties",
    "exclusiveMinimum", "exclusiveMaximum", "pattern", "minItems", "properties", "maxItems", "allOf", "patternProperties",
    "maximum", "anyOf", "example", "$schema", "minLength", "maxLength", "required", "title", "id", "not", "additionalItems",
    "examples", "minProperties", "maxProperties", "definitions", "uniqueItems", "format", "$comment", "comment",
}


class Unsupported(Exception):
    pass


class Schemas:
    def __init__(self, folder=LIVE):
        self.folder = folder
        self.docs = {}

    def doc(self, name):
        if not name.endswith(".json"):
            name += ".json"
        if name not in self.docs:
            with open(os.path.join(self.folder, name), encoding="utf-8") as f:
                self.docs[name] = json.load(f)
        return self.docs[name]

    def resolve(self, s):
        n = 0
        while isinstance(s, dict) and isinstance(s.get("$ref"), str):
            ref = s["$ref"]
            if "#" in ref:
                raise Unsupported(ref)
            s = self.doc(ref)
            n += 1
            if n > 20:
                raise Unsupported("cycle " + ref)
        return s


def is_type(v, t):
    if isinstance(t, list):
        return any(is_type(v, x) for x in t)
    if t == "object":
        return isinstance(v, dict)
    if t == "array":
        return isinstance(v, list)
    if t == "string":
        return isinstance(v, str)
    if t == "boolean":
        return isinstance(v, bool)
    if t == "null":
        return v is None
    if t == "integer":
        return isinstance(v, int) and not isinstance(v, bool)
    if t == "number":
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    raise Unsupported(t)


def equal(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    return a == b


def available(s, version):
    md = s.get("metadata") if isinstance(s, dict) else None
    if version is None or not isinstance(md, dict):
        return True
    return md.get("minVersion", 0) <= version <= md.get("maxVersion", float("inf"))


class Eval:
    def __init__(self, schemas, version=None):
        self.s = schemas
        self.version = version
        self.inner = set()  # paths seen to violate inside of failed alternatives

    def prop_available(self, raw):
        """a property (or alternative) as written, and what it refers to"""
        if self.version is None:
            return True
        return available(raw, self.version) and available(self.s.resolve(raw), self.version)

    def valid(self, v, s):
        for _ in self.errors(v, s, ()):
            return False
        return True

    def errors(self, v, s, path):
        raw = s
        s = self.s.resolve(s)
        bad = set(s) - KNOWN
        if bad:
            raise Unsupported(str(bad))
        if "type" in s and not is_type(v, s["type"]):
            yield path, "type"
        if "enum" in s and not any(equal(v, e) for e in s["enum"]):
            yield path, "enum"
        if isinstance(v, str):
            if "pattern" in s and not re.search(s["pattern"], v):
                yield path, "pattern"
            if len(v) < s.get("minLength", 0) or len(v) > s.get("maxLength", 1e18):
                yield path, "length"
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            if "minimum" in s and (v < s["minimum"] or s.get("exclusiveMinimum") and v == s["minimum"]):
                yield path, "minimum"
            if "maximum" in s and (v > s["maximum"] or s.get("exclusiveMaximum") and v == s["maximum"]):
                yield path, "maximum"
        if isinstance(v, list):
            if len(v) < s.get("minItems", 0) or len(v) > s.get("maxItems", 1e18):
                yield path, "items"
            it = s.get("items")
            if isinstance(it, dict):
                for i, x in enumerate(v):
                    yield from self.errors(x, it, path + (i,))
            elif isinstance(it, list):
                for i, (x, y) in enumerate(zip(v, it)):
                    yield from self.errors(x, y, path + (i,))
                if s.get("additionalItems") is False and len(v) > len(it):
                    yield path, "additionalItems"
        if isinstance(v, dict):
            props = {k: p for k, p in s.get("properties", {}).items() if self.prop_available(p)}
            pats = s.get("patternProperties", {})
            extra = []
            for k, x in v.items():
                hit = False
                if k in props:
                    hit = True
                    yield from self.errors(x, props[k], path + (k,))
                for p, ps in pats.items():
                    if re.search(p, k):
                        hit = True
                        yield from self.errors(x, ps, path + (k,))
                if not hit:
                    extra.append(k)
            ap = s.get("additionalProperties", True)
            if ap is False and extra:
                yield path, "additional"
            elif isinstance(ap, dict):
                for k in extra:
                    yield from self.errors(v[k], ap, path + (k,))
            req = s.get("required", [])
            if isinstance(req, list):
                for k in req:
                    if k not in v:
                        yield path, "required"
            if len(v) < s.get("minProperties", 0) or len(v) > s.get("maxProperties", 1e18):
                yield path, "properties"
        if "allOf" in s:
            for x in s["allOf"]:
                yield from self.errors(v, x, path)
        for k in ("anyOf", "oneOf"):
            if k in s:
                alts = [x for x in s[k] if self.prop_available(x)]
                n = sum(1 for x in alts if self.valid(v, x))
                if n == 0 or (k == "oneOf" and n != 1):
                    yield path, k
        if "not" in s and self.valid(v, s["not"]):
            yield path, "not"

    def root(self, v, name):
        s = self.s.doc(name)
        if self.version is not None and not available(s, self.version):
            yield (), "version"
        yield from self.errors(v, s, ())


def lower(x):
    """the lower-cased JSON form"""
    if isinstance(x, dict):
        return {k.lower(): lower(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [lower(v) for v in x]
    if isinstance(x, str):
        return x.lower()
    return x


def schema_name(d):
    t = d.get("__type__")
    return t if isinstance(t, str) and (t in vocab.ROOT_TYPES or t in vocab.KV_BLOCKS) else "map"


def name_of(d, path):
    """(object path, name) that a message about the path has to carry: keyword, or type of the object"""
    v, obj, name = d, (), d.get("__type__", "")
    for n, p in enumerate(path):
        v = v[p]
        if isinstance(v, dict) and "__type__" in v:
            obj, name = tuple(path[: n + 1]), v["__type__"]
        elif isinstance(p, str):
            name = p
            obj = tuple(path[: n + 1]) if False else obj
    return obj, str(name).upper()


def expected(d, schemas, version=None, name=None):
    """[(object path, NAME, kind)] of the messages to expect for a dictionary"""
    low = lower(d)
    ev = Eval(schemas, version)
    out = []
    for path, kind in ev.root(low, name or schema_name(low)):
        obj, nm = name_of(low, path)
        out.append((obj, nm, kind))
    return out
