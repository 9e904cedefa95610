"""Creating and confirming planted bugs (development aid; no check uses it).

seed(...) writes /verif/seeded/<id>/ from a textual replacement; main confirms them in a scratch copy of /repo:
the demo passes without and fails with the patch, the stable tests pass with it, and what the property's check says."""
import difflib, json, os, shutil, subprocess, sys, tempfile, xml.etree.ElementTree as ET
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
DEMO = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
exec env PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -W ignore "$here/demo.py"
"""
HEAD = """import os, sys, shutil, tempfile
scratch = tempfile.mkdtemp()
os.environ["HOME"] = scratch
os.environ["MPLCONFIGDIR"] = scratch
os.environ["IPYTHONDIR"] = scratch
os.environ["JUPYTER_DATA_DIR"] = os.path.join(scratch, "jupyter")
import atexit
atexit.register(shutil.rmtree, scratch, True)
import numpy as np, pandas as pd, trappy
from trappy.ftrace import GenericFTrace
GenericFTrace.disable_cache = True
def trace(text, name="trace.txt", **kw):
    path = os.path.join(scratch, name)
    with open(path, "w") as f:
        f.write(text)
    return trappy.FTrace(path, **kw)
"""


def seed(id, prop, edits, needs, breaks, demo, root="/repo"):
    """edits: [(file, old, new)]; old must occur once."""
    d = os.path.join(S, id)
    os.makedirs(d, exist_ok=True)
    new = {}
    for f, a, b in edits:
        t = new.get(f) or open(os.path.join(root, f)).read()
        assert t.count(a) == 1, (id, f, t.count(a), a)
        new[f] = t.replace(a, b)
    out = []
    for f in sorted(new):
        o = open(os.path.join(root, f)).read()
        out.append("diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(o.splitlines(1), new[f].splitlines(1), "a/" + f, "b/" + f)))
    open(os.path.join(d, "patch.diff"), "w").write("".join(out))
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(HEAD + demo.lstrip("\n"))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)


def tests(root):
    env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    x = tempfile.mktemp(suffix=".xml")
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-o", "junit_family=xunit2", "--junitxml=" + x, "tests"],
                   cwd=root, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ok = set()
    for c in ET.parse(x).getroot().iter("testcase"):
        if not list(c):
            ok.add(c.get("classname") + "::" + c.get("name"))
        elif all(e.tag in ("system-out", "system-err", "properties") for e in c):
            ok.add(c.get("classname") + "::" + c.get("name"))
    os.remove(x)
    return ok


def confirm(id, run_tests=True, run_check=True, seeds=("1",)):
    d = os.path.join(S, id)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = tempfile.mkdtemp(prefix="seedwt-", dir="/tmp")
    try:
        root = os.path.join(w, "repo")
        shutil.copytree("/repo", root, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        dd = os.path.join(w, "demo")
        shutil.copytree(d, dd)
        for f in ("patch.diff", "meta.json"):
            os.remove(os.path.join(dd, f))
        run = lambda: subprocess.run(["bash", os.path.join(dd, "demo.sh")], cwd=root, capture_output=True, text=True, timeout=300)
        a = run()
        subprocess.run(["patch", "-p1", "-s", "-i", os.path.join(d, "patch.diff")], cwd=root, check=True)
        b = run()
        res = [meta["property"], "demo %d/%d" % (a.returncode, b.returncode)]
        if a.returncode or not b.returncode:
            res.append("DEMO BAD " + a.stderr[-600:])
        if run_tests:
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            bad = stable - tests(root)
            res.append("tests ok" if not bad else "TESTS FAIL %s" % sorted(bad)[:4])
        if run_check:
            for sd in seeds:
                c = subprocess.run(["python3", os.path.join(V, "check.py"), meta["property"]], cwd=V, env=dict(os.environ, VERIF_REPO=root, VERIF_SEED=sd), capture_output=True, text=True)
                res.append("check exit %d: %s" % (c.returncode, c.stdout.split("\n")[0][:150]))
        return res
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(S))
    for i in ids:
        try:
            print(i, " | ".join(confirm(i, "--notests" not in sys.argv, "--nocheck" not in sys.argv)), flush=True)
        except Exception as e:
            print(i, "ERROR", repr(e)[:300], flush=True)
