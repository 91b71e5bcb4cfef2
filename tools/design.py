"""Writes DESIGN.md: head, one part per property, tail."""
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHY = json.load(open(os.path.join(VERIF, "tools", "design_notes.json")))
out = [open(os.path.join(VERIF, "tools", "design_head.md")).read()]
for line in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(line)
    src = open(os.path.join(VERIF, "props", p["id"] + ".cpp")).read()
    oracle = []
    for l in src.split("\n"):
        if not l.startswith("//"):
            break
        oracle.append(l[3:])
    oracle = " ".join(oracle)
    oracle = oracle[oracle.index("Oracle:") + 7:].strip()
    out.append("### %s – %s\n\n" % (p["id"], p["title"]))
    out.append("Oracle: %s\n\n" % oracle)
    for m in re.finditer(r'^SECTION\((\w+), (\d+), (\d+), "([^"]*)"\)', src, re.M):
        out.append("* `%s` (%s quick / %s thorough cases): %s\n" % m.groups())
    out.append("\nReach: %s %s\n\n" % (p["quantifier"]["text"], WHY.get(p["id"], p["why_tests_cant"])))
out.append(open(os.path.join(VERIF, "tools", "design_tail.md")).read())
missed = json.load(open(os.path.join(VERIF, "tools", "missed.json")))
out.append("""
## Planted bugs

Each is in `seeded/` with a demonstration; `tools/plant.py` made and verified
them (compiles, stable tests pass, demonstration passes without and fails with
it), `tools/catch.py` ran the checks against them. Each is caught by the check of
its property, at the quick tier. Where it was missed at first, what was changed
is given.

""")
for d in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
    m = json.load(open(os.path.join(VERIF, "seeded", d, "meta.json")))
    out.append("* `%s` (%s): %s. Needs: %s.%s\n" % (d, m["property"], m["what_it_breaks"].rstrip("."), m["needs"].rstrip("."), " Missed at first: %s." % missed[d] if d in missed else ""))
open(os.path.join(VERIF, "DESIGN.md"), "w").write("".join(out))
