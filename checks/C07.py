"""Cache transparency: histories of parses, content changes and registrations; every cached parse against an uncached one."""
import os
import trappy
from vlib import tracegen as tg, cachework as cw, audit, registry
from vlib.frames import same_trace

CASES = {"quick": 350, "thorough": 6000}
RULE = ("A case is a history of 4-9 operations on one trace file (cached parse with random scope, events, window, name, normalisation; uncached parse; content "
        "replaced, reverted, grown, same-size edit with the old time stamp; events registered and unregistered, also with a class name used before; text trace or "
        "systrace page). Each cached parse is compared with an uncached one of the same file; distinct by the sequence of operations.")
ASSUMPTIONS = ["the file does not change during a parse"]
REQUIRED = ["cached parses compared", "parses that read a cached table", "parses served without reading events from the trace", "uncached parses watched", "content changes",
            "registrations", "systrace parses", "class names reused", "edits of big traces"]


def case(ctx):
    with registry.preserved():
        if ctx.rng.random() < .04:
            big(ctx)
        else:
            history(ctx)


def big(ctx):
    """A trace of megabytes with edits of a single character anywhere."""
    rng = ctx.rng
    path = ctx.path("trace.txt")
    n = rng.choice([2000, 9000, 22000])
    cur = "".join("     task-10    [001] %d.%06d: my_event: a=%d b=x%d\n" % (100 + i // 1000, i % 1000, i % 7, i % 10) for i in range(n))
    kw = dict(scope=rng.choice(["custom", "sched"]), events=["my_event"])
    sites = [j for j in range(1, len(cur)) if cur[j - 1] in "=x" and cur[j].isdigit()]
    for step in range(rng.randint(2, 4)):
        st = os.stat(path) if os.path.exists(path) else None
        with open(path, "w") as f:
            f.write(cur)
        if st and rng.random() < .7:
            os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns))
        parse(ctx, trappy.FTrace, path, kw, None, False)
        j = rng.choice([rng.choice(sites), sites[-1], sites[len(sites) // 2], sites[0]])
        cur = cur[:j] + str((int(cur[j]) + 1) % 10) + cur[j + 1:]
        ctx.seen("big", n, step, j)
    ctx.count("edits of big traces", step)


def history(ctx):
    rng = ctx.rng
    html = rng.random() < .25
    mixed = not html and rng.random() < .15       # a page called trace.txt, parsed by both classes
    path = ctx.path("page.html" if html else "trace.txt")
    cdir = os.path.join(ctx.dir, "." + os.path.basename(path) + ".cache")
    pool = [cw.text(rng, html or mixed) for _ in range(2)]
    ops = []
    registered = []
    used_names = set()

    def put(txt, keep_stat=False):
        st = os.stat(path) if keep_stat and os.path.exists(path) else None
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(txt)
        if st:
            os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns))
    cur = pool[0]
    put(cur)
    ctx.keep("trace", cur)
    lastkw = None
    os.chdir(ctx.dir)
    for step in range(rng.randint(4, 9)):
        r = rng.random()
        if r < .62 or step == 0:
            kw = dict(lastkw) if lastkw and rng.random() < .4 else cw.args(rng)
            if lastkw and rng.random() < .3:
                kw["events"] = cw.args(rng)["events"]
            lastkw = kw
            cls = trappy.SysTrace if html or mixed and rng.random() < .5 else trappy.FTrace
            p = rng.choice([path, os.path.basename(path), os.path.join(ctx.dir, ".", os.path.basename(path))])
            ops.append(("parse", cls.__name__, repr(sorted(kw.items()))))
            ctx.keep("operations", "\n".join(map(str, ops)))
            parse(ctx, cls, p, kw, cdir, html or mixed)
        elif r < .72:
            kw = cw.args(rng)
            cls = trappy.SysTrace if html else trappy.FTrace
            ops.append(("uncached parse",))
            before = cw.tree(ctx.dir)
            audit.start()
            try:
                with cw.cached(False):
                    attempt(lambda: cls(path, **kw))
            finally:
                ev = audit.stop()
            touched = [e for e in ev if any(isinstance(x, str) and ".cache" in x for x in e[1:])]
            ctx.check(not touched, "a parse with caching disabled used the cache: %r" % touched[:4])
            ctx.check(cw.tree(ctx.dir) == before, "a parse with caching disabled changed files")
            ctx.count("uncached parses watched")
        elif r < .84:
            k = rng.random()
            if k < .35:
                cur = rng.choice(pool)
            elif k < .55:
                cur = cw.text(rng, html or mixed)
                pool.append(cur)
            elif k < .75 and not (html or mixed):
                ex = cw.text(rng)
                cur = cur + "".join(l for l in ex.splitlines(True) if not l.startswith(("version", "cpus", "#")))
            else:
                # same length, same time stamp
                i = [j for j, ch in enumerate(cur) if ch.isdigit() and j and cur[j - 1] == "="]
                if i:
                    j = rng.choice(i)
                    cur = cur[:j] + str((int(cur[j]) + 1) % 10) + cur[j + 1:]
            put(cur, rng.random() < .5)
            ctx.keep("trace", cur)
            ops.append(("content", hash(cur)))
            ctx.count("content changes")
        elif r < .97 or not registered:
            if registered and rng.random() < .6:
                # the class of one event, taken by another
                c = registered.pop(rng.randrange(len(registered)))
                trappy.unregister_dynamic_ftrace(c)
                ops.append(("unregister", c.__name__, c.unique_word))
                name, word = rng.choice([x for x in cw.CLASHES if x[0] == c.__name__ and x[1] != c.unique_word] or cw.CLASHES)
            else:
                name, word = rng.choice(cw.CLASHES)
            scope = rng.choice(["all", "sched", "thermal"])
            words = cw.clashes(None)
            if any(word in w or w in word for w in words):
                continue
            registered.append(trappy.register_dynamic_ftrace(name, word, scope, pivot=rng.choice([None, "pid"])))
            ops.append(("register", name, word, scope))
            ctx.count("registrations")
            if name in used_names:
                ctx.count("class names reused")
            used_names.add(name)
        else:
            c = registered.pop(rng.randrange(len(registered)))
            trappy.unregister_dynamic_ftrace(c)
            ops.append(("unregister", c.__name__, c.unique_word))
    ctx.seen(tuple(map(str, ops)))
    ctx.sample([list(map(str, o)) for o in ops[:5]])


def attempt(fn):
    try:
        return fn(), None
    except Exception as e:
        return None, e


def parse(ctx, cls, path, kw, cdir, page):
    with cw.cached(False):
        ref, rerr = attempt(lambda: cls(path, **kw))
    audit.start()
    try:
        with cw.cached(True):
            got, gerr = attempt(lambda: cls(path, **kw))
    finally:
        ev = audit.stop()
    if rerr is not None:
        # refused without a cache (two selected events with clashing words): refused with one too
        ctx.check(gerr is not None and type(gerr) is type(rerr), "parse without a cache fails with %r, with a cache it gives %r" % (rerr, gerr or "a trace"))
        ctx.count("refused parses")
        return
    if gerr is not None:
        import traceback
        ctx.keep("traceback", "".join(traceback.format_exception(type(gerr), gerr, gerr.__traceback__)))
        ctx.check(False, "the cached parse failed: %r" % gerr)
    d = same_trace(got, ref)
    ctx.check(d is None, "the cached parse differs from an uncached one: %s" % d)
    ctx.count("cached parses compared")
    if cls is trappy.SysTrace:
        ctx.count("systrace parses")
    if any(e[0] == "read" and ".cache" in e[1] and not e[1].endswith("metadata.json") for e in ev):
        ctx.count("parses that read a cached table")
    if sum(e[0] == "read" and os.path.basename(e[1]) == os.path.basename(path) for e in ev) <= 1:
        ctx.count("parses served without reading events from the trace")
