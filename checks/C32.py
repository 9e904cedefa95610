"""The process and the file system around everything else: workloads of the other checks, and interrupted reading, under monitors of what is left behind."""
import decimal, gc, importlib, os, random, resource, signal, sys, tempfile, traceback, warnings
import numpy as np, pandas as pd
import trappy
from matplotlib import pyplot as plt
from trappy.base import Base
from vlib import audit, cachework as cw, core, forked, process, registry
from vlib.core import Inconclusive
from vlib.frames import same_trace, trace_fingerprint

CASES = {"quick": 320, "thorough": 16000}
LEVEL = "fault_enumeration"
NAMES = ["C%02d" % i for i in range(1, 32) if i not in (9, 17, 23)]
RULE = ("Two cases of five are 1-3 cases of the workloads of all other checks (parsing in every form, caches, registration, callbacks, grammar, statistics, plots of all kinds, results, notebooks), watched from outside; "
        "the others read a text trace, systrace or (through a stand-in for trace-cmd) binary trace, with and without cache, ending early: an exception from an event's class or a callback, "
        "at a file or process being opened, or a full disk, 1-4 times, then read it undisturbed. Distinct by (workloads) or (format, cache, faults, length).")
ASSUMPTIONS = ["libraries change what is theirs only when first used: each workload runs once before it is watched", "random numbers, settings and registered events of the caller are not asked to change by the workloads",
               "an interruption during the removal of a temporary file leaves it", "files of fonts that matplotlib keeps open are its own"]
REQUIRED = ["workloads", "working directories", "event tables", "workloads that fail", "settings compared", "package values compared", "descriptors compared", "writes watched", "cache writes", "script writes", "temporary directories compared", "objects released", "interrupted parses", "interrupts from events", "interrupts at files",
            "interrupts at processes", "full disks", "interrupted callbacks", "parses after interrupts", "inputs compared", "binary traces", "systraces", "with cache"]
MODS, WARM = {}, set()
CWD = [None]        # the working directory as set last, by others than the package


def moved(name, args):
    if name == "os.chdir" and not by_package():
        CWD[0] = os.path.realpath(args[0])


def setup():
    sys.addaudithook(moved)
    for n in NAMES:
        MODS[n] = importlib.import_module("checks." + n)
        if hasattr(MODS[n], "setup"):
            MODS[n].setup()


    settled()


def settled():
    """What is there now is left aside when objects are looked at."""
    plt.close("all")
    gc.collect()
    gc.freeze()


def by_package():
    """Whether the package under test is on the stack."""
    root = os.path.join(core.REPO, "trappy") + os.sep
    f = sys._getframe(1)
    while f:
        if f.f_code.co_filename.startswith(root):
            return True
        f = f.f_back
    return False


WRITES = ("write", "rename", "remove", "mkdir", "rmdir", "link", "symlink", "truncate", "chmod", "utime", "rmtree")


class Watch(object):
    """What is around a piece of work, before and after."""
    def __init__(self, ctx, what, inject=None):
        self.ctx, self.what, self.inject = ctx, what, inject
        self.done = []

    def _event(self, n, e):
        if e[0] in WRITES and by_package():
            self.done.append(e)
        if self.inject:
            self.inject(e)

    def __enter__(self):
        CWD[0] = os.path.realpath(".")
        plt.close("all")
        gc.collect()
        self.objects = alive()
        self.before = process.snapshot()
        self.tmp = sorted(os.listdir(tempfile.gettempdir()))
        self.home = sorted(os.listdir(os.environ["HOME"]))
        audit.start(self._event)
        return self

    def directory(self):
        """The working directory is the one that the caller set last."""
        self.ctx.check(os.path.realpath(".") == CWD[0], "%s left the working directory at %s, it was %s" % (self.what, os.getcwd(), CWD[0]))

    def __exit__(self, *a):
        audit.stop()

    def settings(self, first=False):
        after = process.snapshot()
        diff = [c for c in process.changes(self.before, after) if not self.library(c, first)]
        self.ctx.check(not diff, "%s left %s" % (self.what, "; ".join("%s: %s, before %s" % (k, str(b)[:200], str(a)[:200]) for k, a, b in diff[:3])))
        return after

    def verify(self, again=None):
        ctx, what = self.ctx, self.what
        plt.close("all")
        gc.collect()
        after = self.settings()
        ctx.count("settings compared", len(after))
        ctx.count("package values compared", sum(1 for k in after if k.startswith("package ")))
        ctx.count("descriptors compared", sum(1 for k in after if k.startswith("descriptor ")))
        more = self.more(alive(), self.objects)
        for _ in range(2):
            # libraries keep what they were last used with; what is kept of each use is another matter
            if more and again:
                last = alive()
                again()
                plt.close("all")
                gc.collect()
                more = {k: v for k, v in self.more(alive(), last).items() if k in more}
        ctx.check(not more, "%s left objects in memory that nothing uses (before, after): %r" % (what, more))
        ctx.count("objects released")
        tmp = sorted(os.listdir(tempfile.gettempdir()))
        ctx.check(tmp == self.tmp, "%s left temporary files: %r, before %r" % (what, tmp, self.tmp))
        home = sorted(os.listdir(os.environ["HOME"]))
        ctx.check(home == self.home, "%s left %r in the home directory" % (what, sorted(set(home) ^ set(self.home))))
        ctx.count("temporary directories compared")
        for e in self.done:
            self.place(e)

    def more(self, now, then):
        return {k: (then.get(k, 0), n) for k, n in now.items() if n > then.get(k, 0)}

    def library(self, c, first):
        k, a, b = c
        if first and k.startswith("environment "):
            return True         # the workloads themselves say where scripts go
        if first and a == "-" and k.startswith("package "):
            return True         # a module is imported
        if k.startswith("descriptor "):
            # matplotlib keeps fonts open
            return all(x == "-" or x.endswith((".ttf", ".afm", ".otf")) for x in (a, b))
        # modules register options when they are first used
        return k.startswith(("pandas ", "matplotlib ")) and a == "-"

    def place(self, e):
        """The package writes to caches, to temporary files and to where the pages' scripts are."""
        ctx = self.ctx
        ctx.count("writes watched")
        for p in e[1:]:
            if not os.path.isabs(p) and e[0] in ("remove", "rmdir"):
                continue        # relative to a directory being removed
            p = os.path.abspath(p)
            parts = p.split(os.sep)
            if any(x.startswith(".") and x.endswith(".cache") for x in parts):
                ctx.count("cache writes")
            elif "nbextensions" in parts:
                ctx.count("script writes")
            elif (p + os.sep).startswith(os.path.join(tempfile.gettempdir(), "")) or p == os.devnull or e[0] == "mkdir" and self.above(p):
                pass
            elif p.startswith(ctx.dir) and p.endswith((".png", ".pdf", ".svg")):
                ctx.count("pictures")
            elif "/tmp/" in p and p.startswith(core.SCRATCH):
                pass            # a temporary directory of the workload
            else:
                ctx.check(False, "%s did %s to %s" % (self.what, e[0], p))

    def above(self, p):
        return os.path.isdir(p) and any(d == "nbextensions" for _, ds, _ in os.walk(p) for d in ds) or "jupyter" in p


def alive():
    out = {}
    for o in gc.get_objects():
        t = type(o)
        if issubclass(t, type):
            m, t = o.__dict__.get("__module__"), o
            pre = "class "
        else:
            m, pre = t.__module__, ""
        if isinstance(m, str) and m.startswith("trappy."):
            k = pre + m + "." + t.__name__
            out[k] = out.get(k, 0) + 1
    return out


# ---- the workloads of the other checks

def sub(ctx, n, j, where=None, watch=None):
    s = core.Ctx(n, ctx.tier, ctx.seed * 100000 + ctx.i, j, {})
    s._dir = ctx.path("w%d" % (j if where is None else where))
    os.makedirs(s._dir)
    try:
        MODS[n].case(s)
    except (core.Violation, core.Inconclusive):
        ctx.count("workloads that end early")
    except Exception:
        ctx.keep("workload", traceback.format_exc())
        ctx.count("workloads that end early")
    finally:
        if watch:
            watch.directory()
            ctx.count("working directories")
        os.chdir(os.path.join(core.SCRATCH, "work"))
        plt.close("all")
    if s.counts.get("refusals") or any("refused" in k or "fail" in k for k in s.counts):
        ctx.count("workloads that fail")


def workloads(ctx):
    rng = ctx.rng
    # each worker process knows a few of them
    mine = [n for k, n in enumerate(NAMES) if (k + ctx.seed) % 8 == ctx.i % 8]
    names = [rng.choice(mine) for _ in range(rng.choice([1, 1, 3]))]
    for n in names:
        if n not in WARM:
            WARM.add(n)
            with Watch(ctx, "the first workload of " + n) as w:
                for j in range(2):
                    sub(ctx, n, 900 + 3 * len(WARM) + j, None, w)
            w.settings(first=True)
            settled()
    env = dict(os.environ)
    with Watch(ctx, "the workload of " + ", ".join(names)) as w:
        for j, n in enumerate(names):
            sub(ctx, n, j, None, w)
            ctx.count("workloads")
    os.environ.clear()
    os.environ.update(env)      # the workloads themselves say where scripts go
    extra = [100]

    def again():
        for j, n in enumerate(names):
            extra[0] += 1
            sub(ctx, n, j, extra[0])
    w.verify(again)
    ctx.seen("workloads", tuple(names), ctx.i)
    ctx.sample(dict(workloads=names))


# ---- reading that ends early

class Stop(Exception):
    pass


def interrupts(ctx):
    rng = ctx.rng
    C27 = MODS["C27"]
    form = rng.choice(["txt", "html", "dat", "dat"])
    cache = rng.random() < .5
    d = ctx.path("run")
    os.makedirs(d)
    cls = trappy.SysTrace if form == "html" else trappy.FTrace
    tables = process.package("trappy.ftrace")
    for _ in range(60):
        text, kw = cw.text(rng, html=form == "html"), cw.args(rng)
        if rng.random() < .5:
            kw["events"] = kw["events"] + [rng.choice(["dev2_probe", "x9", "gpu:job", "vendor-ev", "probe_q:"])]
        p = ctx.path("ref." + ("html" if form == "html" else "txt"))
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        try:
            with cw.cached(False):
                ref = cls(p, **kw)
            break
        except Exception:
            continue
    else:
        raise Inconclusive("no usable arguments")
    os.remove(p)
    path = os.path.join(d, "trace." + form)
    with open(path, "wb") as f:
        f.write(b"\x17\x08\x44tracing" if form == "dat" else text.encode("utf-8"))
    ctx.count({"txt": "text traces", "html": "systraces", "dat": "binary traces"}[form])
    if cache:
        ctx.count("with cache")
    faults = []
    inputs = lambda: {k: v for k, v in cw.tree(d).items() if not any(x.endswith(".cache") for x in k.split(os.sep))}
    before = inputs()
    ctx.keep("setting", repr((form, cache, kw)))
    ctx.keep("text", text)
    with C27.Stub(ctx) as stub:
        stub.set(text.encode("utf-8"))
        for _ in range(rng.choice([1, 2, 4])):
            faults.append(early(ctx, cls, path, kw, cache, text))
            ctx.keep("faults", repr(faults))
            ctx.check(inputs() == before, "a parse that ended early (%s) changed %r" % (faults[-1], sorted(k for k in set(before) | set(inputs()) if before.get(k) != inputs().get(k))))
            left = [k for k in cw.tree(d) if k.endswith(".tmp") or ".tmp" in os.path.basename(k)]
            ctx.check(not left, "a parse that ended early (%s) left %r" % (faults[-1], left))
            ctx.count("inputs compared")
        with cw.cached(cache):
            for _ in range(2):
                t = cls(path, **kw)
                diff = same_trace(t, ref)
                ctx.check(diff is None, "after parses that ended early (%s) the trace differs: %s" % (faults, diff))
                ctx.count("parses after interrupts")
        del t
    callbacks(ctx, ref)
    after = process.package("trappy.ftrace")
    ctx.check(tables == after, "reading with %r left the package with %s" % (kw, "; ".join("%s: %s, before %s" % (k, str(b)[:200], str(a)[:200]) for k, a, b in process.changes(tables, after)[:3])))
    ctx.count("event tables")
    ctx.seen(form, cache, tuple(faults), len(text.splitlines()))
    ctx.sample(dict(form=form, cache=cache, faults=faults))


def early(ctx, cls, path, kw, cache, text):
    rng = ctx.rng
    kind = rng.choice(["event", "event", "file", "file", "file", "process", "disk"] if path.endswith(".dat") else ["event", "file", "file", "disk"])
    exc = rng.choice([KeyboardInterrupt, MemoryError, OSError, Stop, SystemExit])
    n = rng.choice([1, 1, 2, 3, 5, 9])
    what = "%s %d: %s" % (kind, n, exc.__name__)
    if kind == "disk":
        return disk(ctx, cls, path, kw, cache, text, rng.choice([0, 1, 50, 2000]))
    count = [0]
    inject, old = None, Base.append_data
    if kind == "event":
        def method(self, *a, **k):
            count[0] += 1
            if count[0] == n:
                raise exc("early")
            return old(self, *a, **k)
        Base.append_data = method
    else:
        kinds = ("exec",) if kind == "process" else ("write", "read", "mkdir", "rename", "mkstemp")

        def inject(e):
            if e[0] in kinds and not e[1].startswith("/proc") and by_package():
                count[0] += 1
                if count[0] == (1 if kind == "process" else n):
                    raise exc("early")
    t = None
    with Watch(ctx, "a parse that ended early (%s)" % what, inject) as w:
        try:
            with cw.cached(cache):
                t = cls(path, **kw)
        except BaseException as e:
            if isinstance(e, core.NoTermination):
                raise
            ctx.count("interrupted parses")
            ctx.count({"event": "interrupts from events", "file": "interrupts at files", "process": "interrupts at processes"}[kind])
        finally:
            Base.append_data = old
    del t
    w.verify()
    return what


def disk(ctx, cls, path, kw, cache, text, limit):
    """No more than so many bytes fit into any file."""
    def go():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        tmp = sorted(os.listdir(tempfile.gettempdir()))
        fds = process.descriptors()
        hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
        out = "whole"
        try:
            with cw.cached(cache):
                cls(path, **kw)
        except Exception:
            out = "refused"
        gc.collect()
        resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
        return out, tmp, sorted(os.listdir(tempfile.gettempdir())), fds == process.descriptors()
    st, v = forked.run(go, ctx.path("disk.pickle"))
    if st == "raised" and "OSError" in str(v):
        # the result did not fit either
        raise Inconclusive(v)
    if st != "ok":
        ctx.check(False, "a parse with a full disk: %s %s" % (st, v))
    out, before, after, same = v
    ctx.check(before == after, "a parse with a full disk (%s) left temporary files %r" % (out, after))
    ctx.check(same, "a parse with a full disk (%s) left files open" % out)
    ctx.check(not (path.endswith(".dat") and not cache and limit < len(text.encode("utf-8")) and out == "whole"), "a binary trace was read though its text did not fit on the disk")
    ctx.count("full disks")
    return "disk %d" % limit


def callbacks(ctx, t):
    """Callbacks that raise leave the trace as it was, and the next go over it is whole."""
    rng = ctx.rng
    names = [n for n in sorted(t.class_definitions) if len(getattr(t, n).data_frame)]
    if not names:
        return
    before = trace_fingerprint(t)
    seen = []
    stop = rng.randrange(sum(len(getattr(t, n).data_frame) for n in names))

    def f(name):
        def g(row):
            if len(seen) == stop:
                raise KeyboardInterrupt()
            seen.append(name)
        return g
    with Watch(ctx, "a callback that was interrupted") as w:
        try:
            t.apply_callbacks({n: f(n) for n in names})
            ctx.check(False, "the interrupt of a callback did not arrive")
        except KeyboardInterrupt:
            pass
    w.verify()
    ctx.check(trace_fingerprint(t) == before, "an interrupted callback changed the trace")
    part, stop = list(seen), -1
    del seen[:]
    t.apply_callbacks({n: f(n) for n in names})
    ctx.check(seen[:len(part)] == part and len(seen) == sum(len(getattr(t, n).data_frame) for n in names), "after an interrupted callback %d calls came, the trace has %d events" % (len(seen), sum(len(getattr(t, n).data_frame) for n in names)))
    ctx.count("interrupted callbacks")


def case(ctx):
    old = tempfile.tempdir
    tempfile.tempdir = ctx.path("tmp")
    os.makedirs(tempfile.tempdir)
    try:
        run(ctx)
    finally:
        tempfile.tempdir = old


def run(ctx):
    if ctx.i % 5 < 2:
        workloads(ctx)
    else:
        with registry.preserved():
            interrupts(ctx)
