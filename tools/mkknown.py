"""Writes known_findings.json: what is recorded rather than repaired, and what was repaired (from git log)"""
import json
import subprocess

KNOWN = [
    ("C01", "known:output-quote", "LAYER NAME 'say \"hi\"' TYPE POINT END: a keyword's string that holds the output quote is written inside the same quotes (test_nested_quotes of the repository asserts that text), and strings of keywords that also take expressions gain backslashes"),
    ("C01", "known:backslash-end", "MAP SHAPEPATH 'C:\\data\\' NAME \"x\" END: a string that ends in a backslash is written so that the closing quote reads as escaped; the Mapfile syntax has no other way to write it"),
    ("C01", "known:lookalike", "CLASS EXPRESSION \"(a)\" END: a quoted string that reads as an expression, list or binding is written unquoted; the dictionary does not record that it was quoted"),
    ("C01", "known:keyword", "MAP SIZE A 400 300 SIZE 1 2 END: the grammar accepts 400 as a keyword, which reads as a value after the numbers of the previous keyword"),
    ("C01", "known:chain", "CLASS EXPRESSION ([a] = 1 OR [a] = 1 OR ...) END with 300 conditions: brackets are added around each pair, and the text, nested twice as deep as the source, is refused as too deeply nested"),
    ("C08", "known:line-keyword", "LAYER TYPE POINT LINE 5 END with include_position: the position of an unknown keyword LINE or COLUMN is stored over the line or column of its block, and validation messages about the block carry it"),
    ("C11", "known:unclosed-comment", "CLASS TEXT (/*-/*-/*-...) END: the rest of the text is searched for the end of a comment at every /* that is not closed, so the time grows with the square of the length (test_class_regex_expression of the repository asserts that /*1/ is read as a regular expression)"),
    ("C19", "default:label.backgroundshadowsize=False", "schemas/label.json declares default false for BACKGROUNDSHADOWSIZE, which takes two integers (tests/test_utils.py asserts that create('label') holds it)"),
    ("C19", "create-valid:label.backgroundshadowsize=False", "create('label') holds BACKGROUNDSHADOWSIZE FALSE, which does not validate: the default above"),
    ("C06", "known:output-quote", "LAYER NAME 'say \"hi\"' END with quote=\"'\", LAYER NAME \"it's\" END with quote=\"'\": see C01"),
]


def main():
    out = []
    for p, m, w in KNOWN:
        out.append({"status": "known", "property": p, "mechanism": m, "what": w})
    with open("tools/fixed.json", encoding="utf-8") as f:
        fixed = json.load(f)
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "--grep=^fix:"], capture_output=True,
                         text=True, check=True).stdout.strip().splitlines()
    for line in log:
        h, s = line.split(" ", 1)
        s = s.removeprefix("fix: ")
        props = fixed.get(s)
        if props is None:
            print("no property for", s)
            continue
        for p in props.split():
            out.append({"status": "fixed", "property": p, "commit": h, "mechanism": "",
                        "what": f"fixed: property={p} {h} {s}"})
    with open("known_findings.json", "w", encoding="utf-8") as f:
        json.dump({"findings": out}, f, indent=1)
        f.write("\n")


main()
