"""Concurrent parses under a controlled schedule: every process and every later parse against a parse without a cache."""
import os, re, shutil, tempfile
import trappy
from vlib import cachework as cw, coop
from vlib.core import Inconclusive
from vlib.frames import same_trace

CASES = {"quick": 240, "thorough": 8000}
RULE = ("A case is a trace, a starting cache state (none, complete, of other events, of other content, damaged) and 2-4 processes that parse it with caching, each with its own "
        "scope, events and window, interleaved at every operation on a cache file or a temporary file (text or systrace page, or a binary trace with a stand-in for trace-cmd) (before it, after opening, half way through writing) by a seeded scheduler; "
        "in some cases one process is killed. Distinct by the interleaving (sequence of process and operation).")
ASSUMPTIONS = ["the trace file does not change while it is parsed", "processes are preempted at operations on cache files (in between they touch nothing shared)"]
REQUIRED = ["processes compared", "later parses compared", "context switches between cache operations", "schedules with a killed process", "start none", "start complete",
            "start other events", "start other content", "start damaged", "binary traces"]


def point(e):
    return e[0] not in ("exec",) and any(isinstance(x, str) and (".cache" in x or "/vtmp" in x) for x in e[1:])


def tracecmd(ctx):
    """A stand-in for trace-cmd that prints the file it is to report as it is; and a temporary directory of this case."""
    b, tmp = ctx.path("bin"), ctx.path("vtmp")
    os.makedirs(b)
    os.makedirs(tmp)
    with open(os.path.join(b, "trace-cmd"), "w") as f:
        f.write("#!/bin/sh\nfor a; do :; done\nexec /bin/cat \"$a\"\n")
    os.chmod(os.path.join(b, "trace-cmd"), 0o755)
    return b, tmp


def case(ctx):
    old = os.environ.get("PATH"), tempfile.tempdir
    try:
        run(ctx)
    finally:
        os.environ["PATH"], tempfile.tempdir = old


def run(ctx):
    rng = ctx.rng
    html = rng.random() < .15
    cls = trappy.SysTrace if html else trappy.FTrace
    dat = not html and rng.random() < .25
    if dat:
        b, tempfile.tempdir = tracecmd(ctx)
        os.environ["PATH"] = b
        ctx.count("binary traces")
    path = ctx.path("page.html" if html else "trace.dat" if dat else "trace.txt")
    cdir = os.path.join(ctx.dir, "." + os.path.basename(path) + ".cache")
    txt, other = cw.text(rng, html), cw.text(rng, html)

    def put(t):
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(t)
    put(txt)
    ctx.keep("trace", txt)

    def attempt(kw, cached):
        with cw.cached(cached):
            return cls(path, **kw)
    n = rng.choice([2, 2, 3, 4])
    kws, refs = [], []
    for _ in range(60):
        if kws and rng.random() < .35:
            kw = dict(rng.choice(kws))
        else:
            kw = cw.args(rng)
            if rng.random() < .8:
                kw["scope"], kw["events"] = "custom", kw["events"] or ["sched_switch", "my_event"]
        try:
            refs.append(attempt(kw, False))
            kws.append(kw)
        except Exception:
            continue
        if len(kws) == n:
            break
    else:
        raise Inconclusive("no usable arguments")
    ctx.keep("args", "\n".join(map(repr, kws)))
    states = ["none", "complete", "other events", "other content", "damaged"]
    for rep in range(1 if ctx.tier == "quick" else 2):
        state = states[(ctx.i + rep) % 5] if rng.random() < .8 else "none"
        shutil.rmtree(cdir, ignore_errors=True)
        if state == "other content":
            put(other)
        if state != "none":
            k = dict(kws[0])
            if state == "other events":
                k["scope"], k["events"] = "custom", ["cpu_frequency", "foo_evt"]
            try:
                attempt(k, True)
            except Exception:
                pass
        put(txt)
        if state == "damaged" and os.path.isdir(cdir):
            for f in sorted(os.listdir(cdir)):
                if rng.random() < .4:
                    with open(os.path.join(cdir, f), "r+b") as fh:
                        fh.truncate(rng.randrange(0, os.path.getsize(os.path.join(cdir, f)) + 1))
        ctx.count("start " + state)

        def job(i):
            return lambda: same_trace(attempt(kws[i], True), refs[i])
        kill = None
        if rng.random() < .25:
            kill = (rng.randrange(n), rng.randrange(4, 40))
        res, sched = coop.run([job(i) for i in range(n)], point, rng, ctx.dir, switch=rng.choice([.1, .3, .6, 1.]), kill=kill)
        ctx.keep("schedule", "\n".join("%d %s" % s for s in sched))
        what = "%d processes, cache state '%s'" % (n, state)
        for i, r in enumerate(res):
            if r[0] == "exit" and r[1] == 99 and kill:
                ctx.count("schedules with a killed process")
                continue
            if r[0] in ("timeout", "exit"):
                raise Inconclusive("process %d: %r" % (i, r))
            ctx.check(r[0] == "ok", "%s: process %d failed: %s" % (what, i, r[1]), schedule="\n".join("%d %s" % s for s in sched[-60:]))
            ctx.check(r[1] is None, "%s: process %d got another trace: %s" % (what, i, r[1]), schedule="\n".join("%d %s" % s for s in sched[-60:]))
            ctx.count("processes compared")
        for i in range(n):
            try:
                t = attempt(kws[i], True)
            except Exception as e:
                import traceback
                ctx.check(False, "%s: a later parse failed: %r" % (what, e), traceback=traceback.format_exc())
            d = same_trace(t, refs[i])
            ctx.check(d is None, "%s: a later parse differs: %s" % (what, d))
            ctx.count("later parses compared")
        if dat and not kill:
            ctx.check(not os.listdir(tempfile.tempdir), "%s: left behind in the temporary directory: %s" % (what, os.listdir(tempfile.tempdir)))
        ctx.count("context switches between cache operations", sum(a[0] != b[0] for a, b in zip(sched, sched[1:])))
        ctx.count("scheduling points", len(sched))
        ctx.seen(tuple((i, re.sub("[0-9a-f]{32}", "*", s.replace(ctx.dir, ""))) for i, s in sched))
        ctx.sample(dict(state=state, processes=n, schedule=[(i, s.replace(ctx.dir, "")) for i, s in sched[:12]]))
