"""Regenerates /verif/MANIFEST.json from the checks present."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    path = os.path.join(V, "checks", p["id"] + ".py")
    if not os.path.exists(path):
        na.append(dict(property=p["id"], reason="runtime monitoring applies, but its monitor is not built yet"))
        continue
    tree = ast.parse(open(path).read())
    d = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    doc = ast.get_docstring(tree).split("\n")[0]
    c = dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
             technique="runtime monitoring: " + (d.get("TECHNIQUE") or doc[0].lower() + doc[1:]), level=d.get("LEVEL", "exploration"),
             level_note="Says that the property held on the executions observed (%d generated cases quick, %d thorough; the evidence file counts what the monitor compared), not for all. Trusts the model the cases are generated from, CPython, pandas and matplotlib.%s" % (
                 d["CASES"]["quick"], d["CASES"]["thorough"], (" Assumes: " + "; ".join(d["ASSUMPTIONS"]) + ".") if d.get("ASSUMPTIONS") else ""))
    checks.append(c)
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import numpy, pandas, matplotlib, IPython, nbconvert, pyparsing\"", checks=checks, not_applicable=na,
         notes="No hooks in /repo are needed: the monitors observe the public boundary. Repairs of genuine defects are in known_findings.json. Every check: check.py Cxx [--replay FILE].")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
