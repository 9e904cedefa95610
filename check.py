#!/usr/bin/env python3
"""check.py Cxx [--replay FILE] [--tier quick|thorough] [--seed N] [--cases N] [--case I]

Runs the monitor of one property against the working tree of /repo (VERIF_REPO overrides the location, for use on
scratch copies while developing)."""
import os, sys, tempfile, shutil, subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def main():
    if os.environ.get("VT_CHILD") == "1":
        sys.path.insert(0, HERE)
        from vlib import core
        sys.exit(core.main(sys.argv[1:]))
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    try:
        if base and shutil.disk_usage(base).free < 512 << 20:
            base = None
    except OSError:
        base = None
    scratch = tempfile.mkdtemp(prefix="vt-", dir=base)
    try:
        repo = os.environ.get("VERIF_REPO", "/repo")
        env = {k: v for k, v in os.environ.items() if k in ("LANG", "TERM", "VERIF_SEED", "VERIF_TIER", "VT_DEBUG")}
        env.update(VT_CHILD="1", VT_SCRATCH=scratch, VT_REPO=repo,
                   PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
                   PYTHONPATH=repo, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
                   HOME=os.path.join(scratch, "home"), TMPDIR=os.path.join(scratch, "tmp"),
                   IPYTHONDIR=os.path.join(scratch, "home", "ipython"),
                   JUPYTER_DATA_DIR=os.path.join(scratch, "home", "jupyter"),
                   MPLCONFIGDIR=os.path.join(scratch, "home", "mpl"),
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMEXPR_NUM_THREADS="1",
                   LC_ALL="C.UTF-8", TZ="UTC")
        for d in ("home", "tmp", "home/jupyter", "home/mpl", "work"):
            os.makedirs(os.path.join(scratch, d))
        p = subprocess.Popen([PY, "-B", os.path.abspath(__file__)] + sys.argv[1:], env=env, cwd=os.path.join(scratch, "work"))
        try:
            rc = p.wait()
        except KeyboardInterrupt:
            p.terminate()
            rc = 3
        sys.exit(rc if rc >= 0 else 3)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


main()
