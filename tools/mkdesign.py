"""Regenerates the property section and the tables of /verif/DESIGN.md."""
import ast, json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
txt = {l.split("|")[0]: l.rstrip("\n").split("|")[1:] for l in open(os.path.join(V, "tools", "design.txt"))}
cost = json.load(open(os.path.join(V, "tools", "cost.json")))
out = []
for p in props:
    i = p["id"]
    d = {}
    for n in ast.parse(open(os.path.join(V, "checks", i + ".py")).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    mon, orc, wl, why = txt[i]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("* Monitored: " + mon)
    out.append("* Oracle: " + orc)
    out.append("* Workload and bounds: %s %d cases quick, %d thorough." % (wl, d["CASES"]["quick"], d["CASES"]["thorough"]))
    out.append("* Beyond the tests: " + why)
    if d.get("ASSUMPTIONS"):
        out.append("* Assumes: " + "; ".join(d["ASSUMPTIONS"]) + ".")
    out.append("* Cost: about %s s quick on 8 cores.\n" % cost.get(i, "?"))
out.append("## Planted bugs\n")
out.append("Each is in `seeded/<id>` with its demonstration; each builds, passes the stable tests, and was confirmed to be caught by the check of its property.\n")
out.append("| bug | caught by | needs | breaks |\n|---|---|---|---|")
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    c = lambda t: re.sub(r"\s+", " ", t).replace("|", "\\|")
    out.append("| %s | %s | %s | %s |" % (s, m["property"], c(m["needs"]), c(m["what_it_breaks"])))
out.append("\n## Genuine defects repaired\n")
out.append("Each was shown by a check against the real code and repaired by a `fix:` commit in /repo.\n")
for f in json.load(open(os.path.join(V, "known_findings.json")))["fixed"]:
    out.append("* " + f[len("fixed: "):])
head = open(os.path.join(V, "tools", "design_head.md")).read()
tail = open(os.path.join(V, "tools", "design_tail.md")).read()
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write(head.rstrip("\n") + "\n\n" + "\n".join(out) + "\n\n" + tail)
print(len(props), "properties")
