#!/usr/bin/env python3
"""Write DESIGN.md: tools/design_head.md, one section per property (from the check modules), tools/design_tail.md."""
import ast, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
import sys
sys.path.insert(0, HERE)
from design_how import HOW
M = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
NA = {x["property"]: x["reason"] for x in M["not_applicable"]}


def consts(path):
    out, hs = {}, []
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "OUTSIDE", "STUBS", "ASSUME"):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
        if isinstance(n, ast.FunctionDef) and n.name.startswith("h_"):
            hs.append(n.name)
    return out, hs


parts = [open(os.path.join(HERE, "design_head.md")).read()]
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    parts.append(f"### {i} {p['title']}\n")
    f = os.path.join(ROOT, "symx", "checks", i.lower() + ".py")
    if not os.path.exists(f):
        parts.append(f"Not applicable. {NA[i]}\n")
        continue
    c, hs = consts(f)
    parts.append(HOW[i].strip() + "\n")
    parts.append(f"*Within*: {c['BOUNDS']}.  \n*Outside*: {c['OUTSIDE']}.")
    for k, t in (("STUBS", "Stand-ins"), ("ASSUME", "Assumes")):
        if c.get(k):
            parts[-1] += f"  \n*{t}*: {'; '.join(c[k])}."
    parts[-1] += f"  \n*Harnesses*: `symx/checks/{i.lower()}.py`: {', '.join(hs)}.\n"
rows = ["## Planted bugs\n", open(os.path.join(HERE, "design_planted.md")).read(), "| planted bug | caught by | needs |", "|---|---|---|"]
sd = os.path.join(ROOT, "seeded")
for k in sorted(os.listdir(sd)) if os.path.isdir(sd) else ():
    m = json.load(open(os.path.join(sd, k, "meta.json")))
    rows.append(f"| {k} | {m['property']} | {m['needs']} |")
parts.append("\n".join(rows) + "\n")
parts.append(open(os.path.join(HERE, "design_tail.md")).read())
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(parts))
