"""Setup: nothing to build; checks that the pieces the monitors rely on are there and consistent"""
import sys

from . import runner  # noqa: F401
from . import common, doc, expr, gen, reader, vocab  # noqa: F401
import random


def main():
    rng = random.Random(1)
    for n in range(50):
        g = gen.Gen(rng, "valid")
        items = g.document()
        text = doc.render(items, doc.Style(rng)).text
        assert text and doc.model(items) is not None
    assert expr.parse("(1 + 2 * 3)") == expr.parse("(1 + (2 * 3))")
    assert reader.read('MAP\n    NAME "x"\nEND')
    assert len(vocab.TYPES) == 19
    print("ok: python", sys.version.split()[0], "types", len(vocab.TYPES))
    return 0


if __name__ == "__main__":
    sys.exit(main())
