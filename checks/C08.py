"""Crashes, write faults and damage of the cache: every later parse against a parse without a cache."""
import errno, json, os, resource, shutil, signal
import trappy
from vlib import audit, cachework as cw, forked
from vlib.core import Inconclusive
from vlib.frames import same_trace

CASES = {"quick": 160, "thorough": 3000}
LEVEL = "fault_enumeration"
RULE = ("A case is a trace, a starting cache state (none, complete, of other events, of other content) and one kind of fault: the writing process killed at every one of "
        "its cache file operations, killed or failing after every n-th byte of a cache file, every cache write operation failing with an OS error, or cache files "
        "truncated, emptied, deleted, damaged. After each fault two cached parses are compared with an uncached one. Distinct by (kind, point, state, trace).")
ASSUMPTIONS = ["kill points are the process's own cache file operations (audit events) and torn writes of any length; what a power failure does to unsynced pages is not modelled",
               "read faults (I/O errors when reading the trace itself) are not injected"]
REQUIRED = ["kill points", "torn writes", "short write faults", "operation faults", "tables damaged", "metadata damaged", "recoveries compared", "faulty parses compared",
            "cache directory obstructed"]
KILLED = 99


def ref(path, kw, cls):
    with cw.cached(False):
        return cls(path, **kw)


def good(ctx, path, kw, cls, what, detail=None):
    r = ref(path, kw, cls)
    for k in range(2):
        try:
            with cw.cached(True):
                t = cls(path, **kw)
        except Exception as e:
            import traceback
            ctx.keep("traceback", traceback.format_exc())
            ctx.check(False, "%s: parse %d with the cache failed: %r" % (what, k + 1, e), fault=detail)
        d = same_trace(t, r)
        ctx.check(d is None, "%s: parse %d with the cache differs from one without: %s" % (what, k + 1, d), fault=detail)
        ctx.count("recoveries compared")


def is_cache(e):
    return e[0] not in ("listdir", "scandir") and any(isinstance(x, str) and ".cache" in x for x in e[1:])


def case(ctx):
    rng = ctx.rng
    html = rng.random() < .2
    cls = trappy.SysTrace if html else trappy.FTrace
    path = ctx.path("page.html" if html else "trace.txt")
    cdir = os.path.join(ctx.dir, "." + os.path.basename(path) + ".cache")
    txt, other = cw.text(rng, html), cw.text(rng, html)
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(txt)
    ctx.keep("trace", txt)
    for _ in range(50):
        kw = cw.args(rng)
        if rng.random() < .75:
            kw["scope"] = "custom"
            kw["events"] = kw["events"] or ["sched_switch", "my_event"]
        try:
            ref(path, kw, cls)
            break
        except Exception:
            continue
    else:
        raise Inconclusive("no usable arguments")
    ctx.keep("args", repr(kw))
    kind = ["kill", "torn", "short", "fault", "damage", "damage", "obstruct"][ctx.i % 7]
    state = rng.choice(["none", "none", "other events", "other content", "complete"])

    def start():
        if os.path.islink(cdir) or os.path.isfile(cdir):
            os.remove(cdir)
        shutil.rmtree(cdir, ignore_errors=True)
        if state == "other content":
            with open(path, "w", encoding="utf-8", newline="") as f:
                f.write(other)
        if state != "none":
            k = dict(kw)
            if state == "other events":
                k["scope"], k["events"] = "custom", ["cpu_frequency", "foo_evt"]
            with cw.cached(True):
                try:
                    cls(path, **k)
                except Exception:
                    pass
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(txt)

    def parse():
        with cw.cached(True):
            return cls(path, **kw)

    out = ctx.path("child.out")
    lim = 60 if ctx.tier == "quick" else 400
    if kind in ("kill", "fault"):
        # one undisturbed run tells how many operations there are
        start()
        audit.start()
        try:
            parse()
        finally:
            ops = [e for e in audit.stop() if is_cache(e)]
        if kind == "fault":
            ops = [e for e in ops if e[0] not in ("read", "rmtree")]
        n = len(ops)
        points = list(range(1, n + 1))
        if n > lim // 2:
            points = sorted(rng.sample(points, lim // 2))
        for k in points:
            start()
            seen = [0]
            err = rng.choice([errno.ENOSPC, errno.EACCES, errno.EROFS, errno.EIO, errno.EDQUOT])
            forever = rng.random() < .5

            def cb(_, e):
                if not is_cache(e) or kind == "fault" and e[0] in ("read", "rmtree"):
                    return
                seen[0] += 1
                if seen[0] == k or forever and kind == "fault" and seen[0] > k:
                    if kind == "kill":
                        os._exit(KILLED)
                    raise OSError(err, os.strerror(err), e[1])

            def child():
                r = ref(path, kw, cls)
                audit.start(cb)
                try:
                    t = parse()
                finally:
                    audit.stop()
                return same_trace(t, r)
            res = forked.run(child, out)
            if res[0] == "timeout":
                raise Inconclusive("child did not end")
            what = "%s at operation %d of %d %r, cache state '%s'" % (kind, k, n, ops[k - 1][:2], state)
            if kind == "kill":
                if res == ("exit", KILLED):
                    ctx.count("kill points")
            else:
                ctx.count("operation faults")
                ctx.check(res[0] == "ok", "%s: the parse that could not write its cache failed: %s" % (what, res[1]))
                ctx.check(res[1] is None, "%s: the parse that could not write its cache is wrong: %s" % (what, res[1]))
                ctx.count("faulty parses compared")
            good(ctx, path, kw, cls, what)
            ctx.seen(kind, k, state, txt)
    elif kind in ("torn", "short"):
        start()
        parse()
        size = max([len(v) for k, v in cw.tree(cdir).items() if v != "dir"] or [2])
        limits = sorted(set([0, 1, size - 1] + [rng.randrange(size) for _ in range(lim // 5)] + [rng.randrange(min(size, 400)) for _ in range(lim // 5)]))
        for lm in limits:
            start()

            def child():
                r = ref(path, kw, cls)
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kind == "torn" else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (lm, resource.RLIM_INFINITY))
                return same_trace(parse(), r)
            res = forked.run(child, out)
            if res[0] == "timeout":
                raise Inconclusive("child did not end")
            what = "%s: no file of more than %d bytes could be written, cache state '%s'" % (kind, lm, state)
            if kind == "torn":
                if res == ("signal", signal.SIGXFSZ):
                    ctx.count("torn writes")
            else:
                ctx.count("short write faults")
                ctx.check(res[0] == "ok", "%s: the parse that could not write its cache failed: %s" % (what, res[1]))
                ctx.check(res[1] is None, "%s: the parse that could not write its cache is wrong: %s" % (what, res[1]))
                ctx.count("faulty parses compared")
            good(ctx, path, kw, cls, what)
            ctx.seen(kind, lm, state, txt)
    elif kind == "damage":
        state = "complete"
        for _ in range(lim // 4):
            start()
            what = damage(ctx, rng, cdir)
            if what:
                good(ctx, path, kw, cls, what)
                ctx.seen(what, txt)
    else:
        for how in ("file", "dangling link", "table is a directory", "metadata is a directory", "link to an empty directory"):
            start()
            names = [n for n in os.listdir(cdir)] if os.path.isdir(cdir) else []
            if how.endswith("a directory"):
                os.makedirs(cdir, exist_ok=True)
                n = "metadata.json" if how.startswith("meta") else rng.choice([x for x in names if x != "metadata.json"] or ["SchedSwitch.csv"])
                if os.path.exists(os.path.join(cdir, n)):
                    os.remove(os.path.join(cdir, n))
                os.mkdir(os.path.join(cdir, n))
                if rng.random() < .5:
                    open(os.path.join(cdir, n, "x"), "w").close()
            else:
                shutil.rmtree(cdir, ignore_errors=True)
                if how == "file":
                    with open(cdir, "w") as f:
                        f.write(rng.choice(["", "x", "{}"]))
                elif how == "dangling link":
                    os.symlink(os.path.join(ctx.dir, "nowhere"), cdir)
                else:
                    os.makedirs(ctx.path("elsewhere"), exist_ok=True)
                    os.symlink(ctx.path("elsewhere"), cdir)
            good(ctx, path, kw, cls, "cache directory obstructed: " + how)
            ctx.count("cache directory obstructed")
            ctx.seen(how, state, txt)
            if os.path.islink(cdir):
                os.remove(cdir)
    ctx.sample(dict(kind=kind, state=state, args=repr(kw)))


def damage(ctx, rng, cdir):
    if not os.path.isdir(cdir):
        return None
    files = sorted(os.listdir(cdir))
    tables = [f for f in files if f != "metadata.json"]
    r = rng.random()
    if r < .45 and tables:
        what = []
        for f in rng.sample(tables, min(len(tables), rng.choice([1, 1, 2, 10]))):
            p = os.path.join(cdir, f)
            with open(p, "rb") as fh:
                b = fh.read()
            how = rng.choice(["truncate", "truncate", "line", "empty", "delete"])
            if how == "truncate":
                new = b[:rng.randrange(max(1, len(b)))]
            elif how == "line":
                ends = [i + 1 for i, c in enumerate(b[:-1]) if c == 10]
                new = b[:rng.choice(ends)] if ends else b""
            elif how == "empty":
                new = b""
            if how == "delete":
                os.remove(p)
            else:
                with open(p, "wb") as fh:
                    fh.write(new)
            what.append("%s: %s" % (f, how if how in ("empty", "delete") else "%d of %d bytes" % (len(new), len(b))))
            ctx.count("tables damaged")
        return "damaged tables: " + ", ".join(what)
    if r < .55:
        shutil.rmtree(cdir)
        os.mkdir(cdir)
        ctx.count("metadata damaged")
        return "emptied cache directory"
    p = os.path.join(cdir, "metadata.json")
    if not os.path.isfile(p):
        return None
    with open(p, "rb") as fh:
        b = fh.read()
    how = rng.choice(["truncate", "truncate", "empty", "delete", "garbage", "json", "key", "type"])
    new = b""
    if how == "truncate":
        new = b[:rng.randrange(max(1, len(b)))]
    elif how == "garbage":
        new = rng.choice([b"\xff\xfe\x00garbage", b"\x00" * len(b), b"{", b"<html>"])
    elif how == "json":
        new = rng.choice([b"[]", b"null", b"1", b'"x"', b"{}", b"[{}]", b'{"md5sum": null}'])
    elif how in ("key", "type"):
        try:
            d = json.loads(b.decode("utf-8"))
            k = rng.choice(sorted(d))
        except (ValueError, IndexError, TypeError):
            return None
        if how == "key":
            del d[k]
        else:
            v = rng.choice([None, "x", [], {}, -1])
            if d[k] == v:
                return None
            d[k] = v
        how += " " + k
        new = json.dumps(d).encode()
    if how == "delete":
        os.remove(p)
    else:
        with open(p, "wb") as fh:
            fh.write(new)
    ctx.count("metadata damaged")
    return "damaged metadata: %s %r" % (how, new[:60])
