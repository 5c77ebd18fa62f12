"""
Loads texts in another process (without Cython, with another hash seed, in another folder) and reports the outcomes.
    python -m mfv.remote < JSON list of [text, flags]   ->  JSON list of outcomes
"""

from __future__ import annotations

import json
import os
import subprocess
import sys

from . import common, runner


def outcome(text, flags=None, printed=False, options=None):
    """what loads does with the text, as plain data (printed: and what dumps and validate do with what it gave)"""
    try:
        d = common.loads(text, **(flags or {}))
    except common.LARK_ERRORS as e:
        return ["lark", type(e).__name__, getattr(e, "line", None), getattr(e, "column", None)]
    except Exception as e:  # noqa
        return ["error", type(e).__name__]
    out = ["ok", repr(common.content(d))]
    if printed:
        try:
            out.append(common.mappyfile.dumps(d))
        except Exception as e:  # noqa
            out.append("raised " + type(e).__name__)
        for o in options or []:
            try:
                if "version" in o:
                    out.append(repr(common.mappyfile.validate(d, **o)))
                else:
                    out.append(common.mappyfile.dumps(d, **o))
            except Exception as e:  # noqa
                out.append("raised " + type(e).__name__)
    return out


def run(cases, env=None, printed=False, timeout=120):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(
        [sys.executable, "-m", "mfv.remote", "printed" if printed else "plain"],
        input=json.dumps(cases),
        capture_output=True, encoding="utf-8", cwd=runner.ROOT, env=e, timeout=timeout)
    if p.returncode:
        raise RuntimeError(p.stderr[-1500:])
    return json.loads(p.stdout)


if __name__ == "__main__":
    import logging

    logging.disable(logging.CRITICAL)
    common.fast_lark()
    cases = json.loads(sys.stdin.read())
    json.dump([outcome(c[0], c[1], sys.argv[1] == "printed", *c[2:]) for c in cases], sys.stdout)
