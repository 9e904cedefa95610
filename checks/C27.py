"""Which file is read and how: trace-cmd replaced by a recording stand-in (and the real one), the file system watched."""
import os, shutil, stat, subprocess, tempfile, warnings
import trappy
from trappy.dynamic import register_ftrace_parser
from trappy.base import Base
from trappy.dynamic import register_dynamic_ftrace
from vlib import audit, cachework as cw, core, registry
from vlib.core import Inconclusive
from vlib.frames import same_trace

CASES = {"quick": 1500, "thorough": 40000}
LEVEL = "fault_enumeration"
RULE = ("A case is a directory with any of trace.dat, trace.txt, trace.raw.txt and files of other names, asked for as a directory or file, absolute, relative or default, with any set of additional "
        "registered events (raw or not, in any scope), and 1-4 parses of it with trace-cmd working, failing with and without output, killed, not executable, missing, or printing no, undecodable or "
        "unparsable text, with or without the cache, the trace changing in between; some with the real trace-cmd on recorded traces. Distinct by (files, request, registry, sequence of behaviours, cache).")
ASSUMPTIONS = ["paths do not start with a dash", "the stand-in for trace-cmd prints the same text whatever it is asked", "no other process uses the temporary directory"]
REQUIRED = ["binary traces", "binary preferred to text", "text traces", "text warned about", "other extensions", "raw text refused", "missing traces refused", "trace-cmd runs", "raw events asked for", "registered raw events", "tables of another name", "files without extension", "decoys next to the directory",
            "failing runs", "failing runs with output", "killed runs", "trace-cmd missing", "trace-cmd not executable", "undecodable output", "events that fail", "empty output", "parses compared", "complete caches used",
            "changed traces read again", "directories unchanged", "files by path", "default directory", "recovered after a failure", "recorded traces compared"]

STUB = """#!/bin/sh
{ for a in "$@"; do printf '%%s\\n' "$a"; done; echo "--end--"; } >> %(log)s
cat %(out)s
echo "noise: version of the file is newer" >&2
%(end)s
"""
RAW = ["sched_switch", "sched_wakeup", "sched_wakeup_new", "function", "funcgraph_entry", "funcgraph_exit"]


class Broken(Base):
    """An event of a user whose table cannot be finished."""
    unique_word = "sched_switch_broken_event:"
    name = "broken_event"

    def finalize_object(self):
        raise RuntimeError("cannot finish this event")


class Stub(object):
    """A directory with a trace-cmd that records how it is called."""
    def __init__(self, ctx):
        self.ctx = ctx
        self.bin, self.log, self.out = ctx.path("bin"), ctx.path("calls.log"), ctx.path("out.txt")
        os.makedirs(self.bin)
        self.exe = os.path.join(self.bin, "trace-cmd")
        self.old = os.environ["PATH"]
        self.calls()

    def set(self, text, end="exit 0", mode=0o755):
        with open(self.out, "wb") as f:
            f.write(text)
        if os.path.exists(self.exe):
            os.remove(self.exe)
        if mode is not None:
            with open(self.exe, "w") as f:
                f.write(STUB % dict(log=self.log, out=self.out, end=end))
            os.chmod(self.exe, mode)

    def calls(self):
        """The calls since last asked, each a list of arguments."""
        out = []
        if os.path.exists(self.log):
            with open(self.log) as f:
                for part in f.read().split("--end--\n")[:-1]:
                    out.append(part.splitlines())
        open(self.log, "w").close()
        return out

    def __enter__(self):
        # only the stand-in may be found as trace-cmd; cat and sh stay where they are
        safe = self.ctx.path("tools")
        os.makedirs(safe)
        for t in ("cat", "sh"):
            os.symlink(shutil.which(t), os.path.join(safe, t))
        os.environ["PATH"] = self.bin + os.pathsep + safe
        return self

    def __exit__(self, *a):
        os.environ["PATH"] = self.old


def register(ctx):
    """Additional events; the names of those that want raw output."""
    rng = ctx.rng
    raw = []
    for i in range(rng.choice([0, 0, 1, 3])):
        r = rng.random() < .5
        name = "probe_%c%d" % ("rf"[r], i)
        kw = dict(parse_raw=True) if r else rng.choice([{}, dict(parse_raw=False)])
        # the table is not always called like the event in the trace
        cls = "Probe%c%d" % ("RF"[r], i)
        if rng.random() < .4:
            cls = rng.choice(["Other%s", "My_%s", "x%s"]) % cls
            ctx.count("tables of another name")
        register_dynamic_ftrace(cls, name + ":", rng.choice(["all", "sched", "thermal"]), **kw)
        if r:
            raw.append(name)
            ctx.count("registered raw events")
    return raw


def parse_call(ctx, args, raw, dat, cwd):
    """One run of trace-cmd is a report of this file with these events raw."""
    ctx.check(args[:1] == ["report"], "trace-cmd was asked to %r" % args)
    asked, files, flags, i = [], [], [], 1
    while i < len(args):
        a = args[i]
        if a == "-r" and i + 1 < len(args):
            asked.append(args[i + 1])
            i += 1
        elif a.startswith("-r"):
            asked.append(a[2:])
        elif a.startswith("-"):
            flags.append(a)
        else:
            files.append(a)
        i += 1
    ctx.check([os.path.realpath(os.path.join(cwd, f)) for f in files] == [os.path.realpath(dat)], "trace-cmd was given the files %r, expected %r" % (files, dat))
    ctx.check(set(asked) == set(raw), "raw output was asked of %r, expected %r" % (sorted(asked), sorted(raw)))
    ctx.check(flags == ["-t"], "trace-cmd was given the options %r, expected exact times only" % flags)
    ctx.count("trace-cmd runs")
    ctx.count("raw events asked for", len(asked))


def request(ctx, d, base):
    """A path that stands for the trace files base.* in directory d, and the directory to be in."""
    rng = ctx.rng
    ext = rng.choice([x for x in ("dat", "txt") if os.path.isfile(os.path.join(d, base + "." + x))] or ["dat"])
    forms = [("file", os.path.join(d, base + "." + ext), "/"), ("file", os.path.join(os.path.basename(d), base + "." + ext), os.path.dirname(d)), ("file", base + "." + ext, d)]
    if base == "trace":
        forms += [("dir", d, "/"), ("dir", d + "/", "/"), ("dir", os.path.basename(d), os.path.dirname(d)), ("default", None, d), ("dir", ".", d)]
    return rng.choice(forms)


def case(ctx):
    rng = ctx.rng
    if rng.random() < .03:
        return recorded(ctx)
    tmp = ctx.path("tmp")
    os.makedirs(tmp)
    old = tempfile.tempdir
    tempfile.tempdir = tmp
    try:
        with registry.preserved():
            run(ctx, tmp)
    finally:
        tempfile.tempdir = old
        os.chdir(core.SCRATCH)


def run(ctx, tmp):
    rng = ctx.rng
    d = ctx.path(rng.choice(["run", "my run", "r.1", "r.1", "trace"]))
    os.makedirs(d)
    raw = RAW + register(ctx)
    base = rng.choice(["trace", "trace", "trace", "foo", "my.trace", "my trace"])
    have = [x for x in ("dat", "txt", "raw.txt") if rng.random() < (.7 if x == "dat" else .45)]
    for _ in range(60):
        text, other = cw.text(rng), cw.text(rng)
        kw = cw.args(rng)
        if rng.random() < .5:
            kw["scope"], kw["events"] = "custom", kw["events"] or ["sched_switch"]
        try:
            refs = [ref(ctx, t, kw) for t in (text, other)]
            break
        except Inconclusive:
            raise
        except Exception:
            continue
    else:
        raise Inconclusive("no usable arguments")
    files = {"dat": os.urandom(8) + b"tracing", "txt": other.encode("utf-8"), "raw.txt": b"version = 6\n"}
    for x in have:
        with open(os.path.join(d, "%s.%s" % (base, x)), "wb") as f:
            f.write(files[x])
    if rng.random() < .3:
        os.makedirs(os.path.join(d, "trace.dat.d"))
        with open(os.path.join(d, "notes.log"), "w") as f:
            f.write("x")
    if rng.random() < .05 and "dat" not in have:
        os.makedirs(os.path.join(d, base + ".dat"))
    kind, path, cwd = request(ctx, d, base)
    if path is not None and rng.random() < .12 and kind == "file" and set(have) & {"dat", "txt"} == {"txt"}:
        os.rename(os.path.join(d, base + ".txt"), os.path.join(d, base + ".log"))
        have = [x for x in have if x != "txt"] + ["log"]
        path = path[:-3] + "log"
    if path is not None and kind == "file" and not have and rng.random() < .5 or path is not None and kind == "file" and have == ["raw.txt"] and rng.random() < .5:
        # a text file whose name has no dot
        bare = base.replace(".", "-")
        with open(os.path.join(d, bare), "wb") as f:
            f.write(files["txt"])
        have = have + ["log"]
        path = path[:-len(base) - 4] + bare
        ctx.count("files without extension")
    if "." in os.path.basename(d) and rng.random() < .8:
        # a trace next to the directory, of the name up to its dot
        for ext in ("txt", "dat", "raw.txt"):
            with open(d.rsplit(".", 1)[0] + "." + ext, "wb") as f:
                f.write(text.encode("utf-8"))
        ctx.count("decoys next to the directory")
    if kind == "file":
        ctx.count("files by path")
    elif kind == "default":
        ctx.count("default directory")
    os.chdir(cwd)
    cache = rng.random() < .4
    ctx.keep("setting", repr(dict(files=have, base=base, kind=kind, path=path, cwd=cwd, cache=cache, args=kw, raw=raw)))
    ctx.keep("text", text)
    seq = []
    with Stub(ctx) as stub:
        w = World(ctx, d, tmp, stub, path, kw, cache, raw)
        if "dat" in have:
            ctx.count("binary traces")
            if "txt" in have:
                ctx.count("binary preferred to text")
            binary(ctx, w, os.path.join(d, base + ".dat"), text, other, refs, seq)
        elif "txt" in have or "log" in have:
            stub.set(text.encode("utf-8"))
            t, ws, _ = w.parse(None, True)
            compare(ctx, t, refs[1], "the text trace")
            ctx.check(not stub.calls(), "trace-cmd was run for a text trace")
            if "txt" in have:
                ctx.check(any(".txt" in str(x.message) for x in ws), "reading a text trace gives the warnings %r" % [str(x.message) for x in ws])
                ctx.count("text warned about")
                ctx.count("text traces")
            else:
                ctx.count("other extensions")
            seq = ["text"]
        else:
            stub.set(text.encode("utf-8"))
            _, _, e = w.parse((RuntimeError, IOError) if "raw.txt" in have else IOError, False)
            ctx.check(not stub.calls(), "trace-cmd was run without a trace")
            if "raw.txt" in have and kind != "file":
                ctx.check(isinstance(e, RuntimeError) and ".raw.txt" in str(e), "a trace in the obsolete format is refused with %r" % e)
                ctx.count("raw text refused")
            else:
                # a path of nothing next to an obsolete trace is refused one way or the other
                ctx.check(isinstance(e, IOError) or "raw.txt" in have, "a missing trace is refused with %r" % e)
                ctx.count("missing traces refused")
            seq = ["refused"]
    ctx.seen(tuple(have), base, kind, len(raw), tuple(seq), cache, kw["scope"], len(text.splitlines()))
    ctx.sample(dict(files=have, asked=kind, sequence=seq, cache=cache, raw=raw))


def ref(ctx, text, kw):
    """What the text gives when read by itself."""
    p = os.path.join(ctx.dir, "ref.txt")
    with open(p, "w", encoding="utf-8", newline="") as f:
        f.write(text)
    with cw.cached(False):
        t = trappy.FTrace(p, **kw)
    os.remove(p)
    return t


def compare(ctx, t, r, what):
    diff = same_trace(t, r)
    ctx.check(diff is None, "%s differs from its text read by itself: %s" % (what, diff))
    ctx.count("parses compared")


class World(object):
    """A trace's directory and the temporary directory around each parse."""
    def __init__(self, ctx, d, tmp, stub, path, kw, cache, raw):
        self.__dict__.update(ctx=ctx, d=d, tmp=tmp, stub=stub, path=path, kw=kw, cache=cache, raw=raw)

    def snapshot(self):
        stats = {}
        for root, dirs, files in os.walk(self.ctx.dir):
            for f in files:
                p = os.path.join(root, f)
                s = os.lstat(p)
                stats[os.path.relpath(p, self.ctx.dir)] = (s.st_ino, s.st_size, s.st_mtime_ns, stat.S_IMODE(s.st_mode))
        skip = lambda k: k in ("calls.log", "out.txt") or k.split(os.sep)[0] in ("bin", "tools")
        t = cw.tree(self.ctx.dir)
        return {k: (v, stats.get(k)) for k, v in t.items() if not skip(k)}

    def parse(self, error, cached):
        """(trace, warnings, exception); checks what is left behind."""
        ctx = self.ctx
        before = self.snapshot()
        args = [] if self.path is None else [self.path]
        t = exc = None
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            with cw.cached(self.cache):
                audit.start()
                try:
                    t = trappy.FTrace(*args, **self.kw)
                except Exception as e:
                    exc = e
                    import traceback
                    ctx.keep("traceback", traceback.format_exc())
                finally:
                    ev = audit.stop()
        if error is None:
            ctx.check(exc is None, "reading the trace failed: %r" % exc)
        else:
            ctx.check(exc is not None, "reading the trace did not fail")
        after = self.snapshot()
        # the cache of the trace is the only thing that may appear
        mine = lambda k: any(p.startswith(".") and p.endswith(".cache") for p in k.split(os.sep))
        new = sorted(k for k in after if k not in before and not (self.cache and cached and mine(k)))
        gone = sorted(k for k in before if k not in after and not mine(k))
        changed = sorted(k for k in before if k in after and before[k] != after[k] and not mine(k))
        ctx.check(not new and not gone and not changed, "reading the trace left %r, removed %r and changed %r" % (new, gone, changed))
        for e in ev:
            if e[0] in ("write", "rename", "remove", "mkdir", "rmdir", "link", "symlink", "truncate", "chmod", "utime", "rmtree"):
                for p in e[1:]:
                    if e[0] in ("remove", "rmdir") and not os.path.isabs(p):
                        continue    # relative to a directory being removed; what is gone shows in the directories
                    p = os.path.abspath(p)
                    ok = (p + os.sep).startswith(self.tmp + os.sep) or (self.cache and mine(os.path.relpath(p, self.d))) or p == os.devnull
                    ctx.check(ok, "reading the trace did %s to %s" % (e[0], p))
        ctx.count("directories unchanged")
        self.events = ev
        return t, ws, exc


def binary(ctx, w, dat, text, other, refs, seq):
    rng, stub = ctx.rng, w.stub
    texts = [text, other]
    cur, cached, failed = 0, False, False
    for step in range(rng.choice([1, 2, 3, 4])):
        if step and rng.random() < .3:
            # another trace is recorded to the same file
            with open(dat, "wb") as f:
                f.write(os.urandom(8) + b"again")
            cur, cached = 1 - cur, False
            ctx.count("changed traces read again")
            seq.append("changed")
        b = rng.choice(["ok", "ok", "ok", "fail", "fail with output", "killed", "missing", "not executable", "undecodable", "broken event"])
        out = texts[cur].encode("utf-8")
        complete = w.cache and cached
        expect = None
        with registry.preserved():
            if b == "ok":
                stub.set(out)
            elif b == "fail":
                stub.set(b"", "exit %d" % rng.choice([1, 2, 22, 255]))
            elif b == "fail with output":
                stub.set(out, "exit 1")
                ctx.count("failing runs with output")
            elif b == "killed":
                stub.set(out[:len(out) // 2], "kill -9 $$")
            elif b == "missing":
                stub.set(b"", mode=None)
            elif b == "not executable":
                stub.set(out, mode=0o644)
            elif b == "undecodable":
                stub.set(rng.choice([out + b"\xff\xfe line\n", b"\xff\n" + out, out + b"     task-1 [000] 100000000.5: my_event: a=\xc3\n"]))
            elif b == "broken event":
                stub.set(out)
                kw = w.kw
                register_ftrace_parser(Broken, "all")
                w.kw = dict(kw, scope="all", events=[])
            seq.append(b)
            stub.calls()
            if b == "broken event":
                t, ws, e = w.parse(Exception, False)
                w.kw = kw
                ctx.check("cannot finish" in str(e), "an event's own error came as %r" % e)
                ctx.count("events that fail")
                for c in stub.calls():
                    parse_call(ctx, c, w.raw, dat, os.getcwd())
                failed = True
                continue
        if complete or b == "ok":
            t, ws, _ = w.parse(None, True)
            compare(ctx, t, refs[cur], "the binary trace")
            calls = stub.calls()
            execs = [e for e in w.events if e[0] == "exec"]
            ctx.check(len(execs) == len(calls), "%d processes started, %d runs of trace-cmd" % (len(execs), len(calls)))
            if complete:
                ctx.check(len(calls) <= 1, "trace-cmd ran %d times" % len(calls))
                ctx.check(b == "ok" or not calls, "trace-cmd ran for a trace that is cached")
                ctx.count("complete caches used")
            else:
                ctx.check(len(calls) == 1, "trace-cmd ran %d times" % len(calls))
            for c in calls:
                parse_call(ctx, c, w.raw, dat, os.getcwd())
            ctx.check(not any(".txt" in str(x.message) for x in ws), "reading a binary trace warns of text: %r" % [str(x.message) for x in ws])
            if failed:
                ctx.count("recovered after a failure")
            cached = bool(t.trace_classes)
            if not texts[cur].strip():
                ctx.count("empty output")
        else:
            _, _, e = w.parse(Exception, False)
            calls = stub.calls()
            failed = True
            if b in ("missing", "not executable"):
                ctx.check(not calls and isinstance(e, OSError), "%s trace-cmd gives %r" % (b, e))
                ctx.check("trace-cmd" in str(e), "the error for %s trace-cmd does not name it: %r" % (b, e))
            else:
                ctx.check(len(calls) == 1, "trace-cmd ran %d times" % len(calls))
                parse_call(ctx, calls[0], w.raw, dat, os.getcwd())
            if b in ("fail", "fail with output", "killed"):
                ctx.check(isinstance(e, (subprocess.CalledProcessError, OSError, ValueError, RuntimeError)), "a failing trace-cmd gives %r" % e)
            ctx.count({"fail": "failing runs", "fail with output": "failing runs", "killed": "killed runs", "missing": "trace-cmd missing", "not executable": "trace-cmd not executable",
                       "undecodable": "undecodable output"}[b])
    # an empty report is an empty trace
    if not w.cache and rng.random() < .2:
        stub.set(b"")
        t, _, _ = w.parse(None, True)
        ctx.check(all(len(c.data_frame) == 0 for c in t.trace_classes), "a report without lines gives rows")
        ctx.count("empty output")


def recorded(ctx):
    """Traces recorded on devices through the real trace-cmd, against the text of its report."""
    rng = ctx.rng
    name = rng.choice(["trace.dat", "raw_trace.dat", "trace_idle.dat"])
    src = os.path.join(core.REPO, "tests", name)
    exe = shutil.which("trace-cmd")
    if exe is None or not os.path.exists(src):
        raise Inconclusive("no trace-cmd or no %s" % src)
    d, e, b = ctx.path("dat"), ctx.path("txt"), ctx.path("bin")
    for x in (d, e, b):
        os.makedirs(x)
    shutil.copy(src, os.path.join(d, "trace.dat"))
    # two runs of trace-cmd on one file do not always print the same, so the very output trappy got is kept
    out = os.path.join(e, "trace.txt")
    with open(os.path.join(b, "trace-cmd"), "w") as f:
        f.write("#!/bin/sh\n%s \"$@\" > %s || exit 1\ncat %s\n" % (exe, out, out))
    os.chmod(os.path.join(b, "trace-cmd"), 0o755)
    kw = rng.choice([dict(scope="thermal"), dict(scope="sched"), dict(scope="custom", events=["sched_switch", "cpu_idle", "sched_wakeup"])])
    old = os.environ["PATH"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        os.environ["PATH"] = b + os.pathsep + old
        try:
            a = trappy.FTrace(d, **kw)
        finally:
            os.environ["PATH"] = old
        ctx.check(os.path.exists(out), "trace-cmd was not run for the recorded trace")
        b = trappy.FTrace(e, **kw)
    compare(ctx, a, b, "the recorded trace %s" % name)
    rows = sum(len(c.data_frame) for c in a.trace_classes)
    ctx.check(sorted(os.listdir(d)) == ["trace.dat"], "reading the recorded trace left %r" % os.listdir(d))
    ctx.count("recorded traces compared")
    ctx.count("recorded rows compared", rows)
    ctx.seen("recorded", name, str(kw))
