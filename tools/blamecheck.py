"""Which planted bugs change only lines that commits of this work added (development aid)."""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for id in sorted(os.listdir(V + "/seeded")):
    f, n, own, orig = None, 0, 0, 0
    for l in open("%s/seeded/%s/patch.diff" % (V, id)):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            blame = subprocess.run(["git", "-C", "/repo", "blame", "-s", f], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l[0] in " -" and not l.startswith("---"):
            if l[0] == "-":
                if blame[n - 1].startswith("^5d77b94"):
                    orig += 1
                else:
                    own += 1
            n += 1
    if not orig:
        print(id, "original lines removed:", orig, "own:", own)
