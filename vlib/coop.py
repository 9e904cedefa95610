"""Cooperative scheduling of forked processes: exactly one runs at a time, up to its next scheduling point.

Scheduling points are audit events for which `point(event)` is true, the moment after such a file is opened, and the
middle of every write to it. The schedule is drawn from the given generator, so it is replayed exactly."""
import builtins, io, os, pickle, resource, select, signal, time, traceback
from . import audit

KILL, GO = b"k", b"g"


def _child(fn, point, r, w, out, cpu):
    code = 70
    try:
        signal.setitimer(signal.ITIMER_PROF, 0)
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))

        def pause(what):
            on, audit._on = audit._on, False
            os.write(w, repr(what).encode("utf-8", "replace")[:400] + b"\n")
            c = os.read(r, 1)
            audit._on = on
            if c != GO:
                os._exit(99)

        def cb(_, e):
            if point(e):
                pause(e)
        real = io.open

        def opener(file, *a, **k):
            f = real(file, *a, **k)
            if isinstance(file, (str, os.PathLike)) and point(("opened", os.fspath(file))):
                pause(("opened", os.fspath(file)))
                try:
                    if f.writable():
                        hook(f, os.fspath(file))
                except AttributeError:
                    pass
            return f

        def hook(f, name):
            write = f.write

            def slow(text):
                h = len(text) // 2
                n = write(text[:h])
                f.flush()
                pause(("half written", name))
                return n + write(text[h:])
            f.write = slow
        builtins.open = io.open = opener
        pause(("start",))
        audit.start(cb)
        try:
            res = ("ok", fn())
        except BaseException as e:
            res = ("raised", "".join(traceback.format_exception(type(e), e, e.__traceback__)))
        finally:
            audit.stop()
        with real(out, "wb") as f:
            pickle.dump(res, f)
        code = 71
    finally:
        os._exit(code)


def run(fns, point, rng, scratch, switch=.5, kill=None, cpu=150, wall=300):
    """Run all fns concurrently. Returns (results, trace): results as of forked.run, trace the schedule [(process, point)].
    kill: (process, step) kills that process when the schedule has that many steps."""
    procs = []
    for i, fn in enumerate(fns):
        a, b = os.pipe(), os.pipe()
        out = os.path.join(scratch, "coop%d" % i)
        if os.path.exists(out):
            os.remove(out)
        pid = os.fork()
        if pid == 0:
            os.close(a[1])
            os.close(b[0])
            for p in procs:
                os.close(p["w"])
                os.close(p["r"])
            _child(fn, point, a[0], b[1], out, cpu)
        os.close(a[0])
        os.close(b[1])
        procs.append(dict(i=i, pid=pid, w=a[1], r=b[0], out=out, res=None))
    trace = []
    t0 = time.time()

    def wait(p):
        """Until p reaches its next point, or ends."""
        msg = b""
        while not msg.endswith(b"\n"):
            if not select.select([p["r"]], [], [], max(0, wall - (time.time() - t0)))[0]:
                os.kill(p["pid"], signal.SIGKILL)
                os.waitpid(p["pid"], 0)
                p["res"] = ("timeout", None)
                return
            c = os.read(p["r"], 4096)
            if not c:
                _, st = os.waitpid(p["pid"], 0)
                if os.WIFSIGNALED(st):
                    p["res"] = ("signal", os.WTERMSIG(st))
                elif os.WEXITSTATUS(st) == 71:
                    with open(p["out"], "rb") as f:
                        p["res"] = pickle.load(f)
                else:
                    p["res"] = ("exit", os.WEXITSTATUS(st))
                return
            msg += c
        p["at"] = msg[:-1].decode("utf-8", "replace")
    for p in procs:
        wait(p)
    cur = None
    while True:
        live = [p for p in procs if p["res"] is None]
        if not live:
            break
        if cur is None or cur["res"] is not None or rng.random() < switch:
            cur = rng.choice(live)
        trace.append((cur["i"], cur["at"]))
        if kill and kill[0] == cur["i"] and len(trace) > kill[1]:
            os.write(cur["w"], KILL)
            kill = None
        else:
            os.write(cur["w"], GO)
        wait(cur)
    for p in procs:
        os.close(p["w"])
        os.close(p["r"])
    return [p["res"] for p in procs], trace
