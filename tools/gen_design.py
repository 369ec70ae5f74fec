"""Writes DESIGN.md from the head, the checks' own descriptions, and the tail."""
import ast
import glob
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for line in open(os.path.join(root, "properties.jsonl")):
    d = json.loads(line)
    props[d["id"]] = d
out = [open(os.path.join(root, "tools/design_head.md")).read()]
extra = json.load(open(os.path.join(root, "tools/design_oracles.json")))
for f in sorted(glob.glob(os.path.join(root, "vf/checks/c[0-9]*.py"))):
    i = os.path.basename(f)[:-3].upper()
    v = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) \
                and n.targets[0].id in ("CASES", "RULE"):
            v[n.targets[0].id] = ast.literal_eval(n.value)
    p = props[i]
    out.append(f"### {i} {p['title']}\n\n"
               f"*Specified*: {p['statement'].split('. ')[0].rstrip('.')}. *Over*: {p['quantifier']['text']}\n\n"
               f"*Oracle and monitors*: {extra[i]}\n\n"
               f"*Workload*: {v['RULE']} Cases: {v['CASES']['quick']} quick, "
               f"{v['CASES']['thorough']} thorough.\n\n*Reach*: {p['why_tests_cant']}\n")
out.append(open(os.path.join(root, "tools/design_tail.md")).read())
missed = json.load(open(os.path.join(root, "tools/missed.json")))
rows = []
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    i, m = os.path.basename(os.path.dirname(f)), json.load(open(f))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {missed.get(i, '')} |")
out.append(
    f"{len(rows)} planted changes are kept in `seeded/`. Each passes the stable tests, and each is "
    "reported by the quick check (VERIF_SEED=1) of the property in its row.\n\n"
    "| change | caught by | needs | history |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out))
