"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..", "..")
missed = set(open(os.path.join(here, "first_missed.txt")).read().split())
rows = []
for i in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", i, "meta.json")))
    clip = lambda s: re.sub(r"\s+", " ", s).replace("|", "/")
    rows.append(f"| {i}{' *' if i in missed else ''} | {m['property']} | {clip(m['needs'])} | {clip(m['what_it_breaks'])} |")
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
head = "| bug | caught by | needs | breaks |\n|---|---|---|---|\n"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + head + "\n".join(rows) + "\n" + s[j:])
print(len(rows), "bugs")
