#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md: spaces from evidence/*.json, planted bugs from tools/caught.txt (output of
matrix.sh), thorough timings from tools/thorough.txt (the last line of every thorough run)."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(here)
def put(s, name, text):
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + "\n" + text.strip() + "\n" + s[j:]
cell = lambda t: t.replace("|", "\\|").replace("\n", " ")
doc = open("DESIGN.md").read()
out = []
for i in range(1, 28):
    p = f"evidence/C{i:02}.json"
    d = json.load(open(p))
    if d["tier"] != "quick":
        sys.exit(f"{p} is not of the quick tier")
    out.append(f"**C{i:02}** ({d['coverage']['traces_validated_against_impl']} cases)\n")
    for s in d["coverage"]["spaces"]:
        r = s["enumerated"]
        r = r if len(r) < 230 else r[:225].rsplit(" ", 1)[0] + " ..."
        out.append(f"* {s['name']} ({s['cases']}): `{r.replace('`', '')}`")
    out.append("")
doc = put(doc, "spaces", "\n".join(out))
if os.path.exists("tools/caught.txt"):
    rows = ["| bug | property | needs | caught in |", "|---|---|---|---|"]
    for l in open("tools/caught.txt"):
        v, b, rest = l.strip().split(" ", 2)
        m = json.load(open(f"seeded/{b}/meta.json"))
        sp = re.findall(r"\[(.*)\]", rest)
        rows.append(f"| {b} | {m['property']} | {cell(m['needs'])} | {sp[0] if v == 'CAUGHT' and sp else 'not caught' if v != 'CAUGHT' else 'yes'} |")
    n = sum(l.startswith("CAUGHT") for l in open("tools/caught.txt"))
    rows.insert(0, f"{n} of {len(rows) - 2} are caught by the quick check of their own property:\n")
    doc = put(doc, "seeded", "\n".join(rows))
if os.path.exists("tools/thorough.txt"):
    doc = put(doc, "thorough", "```\n" + open("tools/thorough.txt").read() + "```")
open("DESIGN.md", "w").write(doc)
