"""Scripts of interactive plots installed from a web that fails, by processes that are killed or compete."""
import hashlib, os, re, signal, socket, struct, threading, time
import pandas as pd
import trappy
from trappy.plotter import IPythonConf
from trappy.plotter.EventPlot import EventPlot
from trappy.plotter.ILinePlot import ILinePlot
from vlib import audit, cachework as cw, core, forked, web
from vlib.core import Inconclusive
from vlib.pages import shown

CASES = {"quick": 400, "thorough": 20000}
LEVEL = "fault_enumeration"
RULE = ("A case is a scripts directory in any state (absent, partly made, some resources installed, older scripts of the package, other files) and 1-5 installations, by a plot's view or by module, "
        "each with a behaviour of the web per resource: whole (with length, without, chunked, redirected) or failing (status, refused, reset, no or a garbled reply, short, cut off, redirected in circles), "
        "some killed when part of a resource was received or at any of their file operations, some by 2-3 processes at once meeting at each directory they make. Distinct by (start, sequence of installations).")
ASSUMPTIONS = ["a web server that closes a reply without length early is not told from one that is done", "a web server that never ends its reply is waited for",
               "the process has the rights to write to the directory of Jupyter", "the package's own scripts are installed anew each time, so one copied only in part by a process that was killed is replaced by the next"]
REQUIRED = ["installations", "by view", "by module", "failures reported", "nothing shown on failure", "resources fetched whole", "resources kept", "not asked for again", "recovered after a failure",
            "killed while receiving", "killed at a file operation", "at once", "short replies", "replies cut off", "garbled replies", "refused connections", "redirected", "older scripts replaced", "other files kept",
            "scripts of pages found"]
OK = ["length", "length", "close", "chunked", "redirect"]
BAD = ["404", "403", "500", "503", "reset", "silent", "garbled", "short", "short", "short0", "cut chunk", "reset midway", "circle"]
SIZES = [0, 1, 100, 8191, 8192, 8193, 20000, 200000]
KILLED = 77
need = {}


def setup():
    """What the pages ask for: module -> {file name: URL or path of the package's file}."""
    for mod, make in (("ILinePlot", lineplot), ("EventPlot", eventplot)):
        os.environ["JUPYTER_DATA_DIR"] = os.path.join(core.SCRATCH, "setup-jupyter")
        with web.pages(), shown() as out:
            make().view()
        text = out[0]
        urls = {u.rsplit("/", 1)[1]: u for u in re.findall(r'TRAPPY_PUBLISH_SOURCE_LIB = "([^"]+)"', text)}
        names = [p + ".js" for p in re.findall(r"/nbextensions/plotter_scripts/%s/([\w.-]+)'" % mod, text)]
        own = os.path.join(core.REPO, "trappy", "plotter")
        files = {}
        for n in names:
            if os.path.exists(os.path.join(own, "js", n)):
                files[n] = os.path.join(own, "js", n)
            else:
                files[n] = urls[n]
        if mod == "EventPlot":
            files["EventPlot_help.jpg"] = os.path.join(own, "css", "EventPlot_help.jpg")
        need[mod] = files


def lineplot():
    return ILinePlot(pd.DataFrame({"a": [1., 2.]}, index=[0., 1.]), column=["a"])


def eventplot():
    return EventPlot({"x": [[0., 1., 0]]}, ["x"], [0, 2], num_lanes=1)


class Server(threading.Thread):
    """Answers each URL as told; records what was asked."""
    def __init__(self):
        threading.Thread.__init__(self, daemon=True, name="stand-in")
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.how, self.body, self.asked = {}, {}, []
        self.lock = threading.Lock()
        self.meet = 0
        self.stalled = threading.Event()
        self.start()

    def run(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True, name="stand-in").start()

    def stop(self):
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()

    def serve(self, c):
        try:
            self.answer(c)
        except OSError:
            pass
        finally:
            c.close()

    def answer(self, c):
        data = b""
        while b"\r\n\r\n" not in data:
            got = c.recv(65536)
            if not got:
                return
            data += got
        head = data.decode("latin-1").split("\r\n")
        path = head[0].split(" ")[1]
        host = [h.split(":", 1)[1].strip() for h in head if h.lower().startswith("host:")][0]
        mirror = path.startswith("/mirror/")
        key = path[len("/mirror/"):] if mirror else host + path
        with self.lock:
            self.asked.append(("mirror " if mirror else "") + key)
        t0 = time.time()
        while self.meet and time.time() - t0 < .25 and len([a for a in self.asked if a == key]) < self.meet:
            time.sleep(.002)
        how, body = self.how.get(key, "404"), self.body.get(key, b"")
        ok = b"HTTP/1.1 200 OK\r\nConnection: close\r\n"
        rst = lambda: c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        half = body[:len(body) // 2]
        if how == "redirect" and not mirror:
            c.sendall(("HTTP/1.1 302 Found\r\nLocation: https://mirror.example/mirror/%s\r\nContent-Length: 0\r\nConnection: close\r\n\r\n" % key).encode())
        elif how == "circle":
            c.sendall(("HTTP/1.1 302 Found\r\nLocation: https://%s\r\nContent-Length: 0\r\nConnection: close\r\n\r\n" % key).encode())
        elif how in ("length", "redirect"):
            c.sendall(ok + b"Content-Length: %d\r\n\r\n" % len(body) + body)
        elif how == "close":
            c.sendall(ok + b"\r\n" + body)
        elif how in ("chunked", "cut chunk"):
            c.sendall(ok + b"Transfer-Encoding: chunked\r\n\r\n")
            b = body if how == "chunked" else half
            for i in range(0, len(b), 5000):
                part = b[i:i + 5000]
                c.sendall(b"%x\r\n" % len(part) + part + b"\r\n")
            c.sendall(b"0\r\n\r\n" if how == "chunked" else b"fff\r\nabc")
        elif how in ("short", "short0", "reset midway", "stall"):
            c.sendall(ok + b"Content-Length: %d\r\n\r\n" % max(len(body), 1) + (b"" if how == "short0" else half))
            if how == "reset midway":
                rst()
            if how == "stall":
                self.stalled.set()
                c.settimeout(20)
                c.recv(1)
        elif how == "reset":
            rst()
        elif how == "garbled":
            c.sendall(b"ICY what\r\n\r\n" + half)
        elif how.isdigit():
            c.sendall(b"HTTP/1.1 %s Oops\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % (how.encode(), len(half)) + half)


def key(url):
    return url.split("://", 1)[1]


def case(ctx):
    s = Server()
    try:
        run(ctx, s)
    finally:
        s.stop()


def run(ctx, s):
    rng = ctx.rng
    data = ctx.path(rng.choice(["jupyter", "my jupyter", "a/b"]))
    os.environ["JUPYTER_DATA_DIR"] = data
    root = os.path.join(data, "nbextensions", "plotter_scripts")
    have, others = {}, {}
    deep = rng.choice([None, data, os.path.dirname(root), root, "modules", "modules"])
    if deep:
        os.makedirs(root if deep == "modules" else deep)
    start = "made" if deep else "nothing"
    if deep == "modules":
        for m in need:
            if rng.random() < .8:
                os.makedirs(os.path.join(root, m))
                for n in need[m]:
                    if rng.random() < .4:
                        have[m, n] = os.urandom(rng.choice([1, 50, 9000]))
                for n in ("custom.js", "d3.js", "ILinePlot.js.bak", "x.part"):
                    if rng.random() < .3:
                        others[m, n] = os.urandom(20)
        for (m, n), b in list(have.items()) + list(others.items()):
            with open(os.path.join(root, m, n), "wb") as f:
                f.write(b)
        start = "partly" if have else "made"
    if deep and rng.random() < .5:
        with open(os.path.join(data, "main.js"), "wb") as f:
            f.write(b"other")
        others["", "main.js"] = b"other"
    seq, failed, leftover = [], set(), set()
    for step in range(rng.choice([1, 2, 3, 5])):
        mod = rng.choice(sorted(need))
        files = need[mod]
        absent = [n for n, w in files.items() if "://" in w and (mod, n) not in have]
        fine = rng.random() < .45
        how = {}
        for n, w in files.items():
            if "://" in w:
                how[n] = rng.choice(OK if fine or rng.random() < .6 else BAD)
                s.body[key(w)] = os.urandom(rng.choice(SIZES))
                if how[n] in ("cut chunk", "reset midway", "short") and len(s.body[key(w)]) < 2:
                    s.body[key(w)] = os.urandom(rng.choice(SIZES[2:]))
        kind = rng.choice(["view", "view", "module", "module", "module", "unreachable", "stall", "kill", "at once"])
        if kind == "stall":
            if not absent:
                kind = "module"
            else:
                n = rng.choice(absent)
                how = {k: "length" for k in how}
                how[n] = "stall"
                s.body[key(files[n])] = os.urandom(rng.choice(SIZES[2:]))
        if kind in ("kill", "at once"):
            how = {k: rng.choice(OK) for k in how}
        s.how = {key(files[n]): h for n, h in how.items()}
        s.asked = []
        s.meet = 0
        seq.append((mod, kind, tuple(sorted(how.items()))))
        ctx.keep("installation %d" % step, "%s %s %r, installed %r" % (kind, mod, how, sorted(have)))
        what = "installation %d (%s of %s)" % (step + 1, kind, mod)
        bad = [n for n in absent if how[n] in BAD]
        if kind in ("view", "module", "unreachable"):
            port = s.port if kind != "unreachable" else closed_port()
            exc, out = None, []
            with web.loopback(port):
                try:
                    with shown() as out:
                        if kind == "view":
                            (lineplot if mod == "ILinePlot" else eventplot)().view()
                        else:
                            IPythonConf.iplot_install(mod)
                except Exception as e:
                    exc = e
            ctx.count("by view" if kind == "view" else "by module")
            if kind == "unreachable":
                bad = absent
                ctx.count("refused connections")
            if bad:
                ctx.check(isinstance(exc, ImportError), "%s with %r ended with %r" % (what, {n: how[n] for n in bad}, exc))
                ctx.check(not out, "%s showed a page without its scripts" % what)
                ctx.count("failures reported")
                if kind == "view":
                    ctx.count("nothing shown on failure")
                failed.add(mod)
            else:
                ctx.check(exc is None, "%s failed with %r" % (what, exc))
                ctx.check(len(out) == (kind == "view"), "%s showed %d pages" % (what, len(out)))
                if mod in failed:
                    failed.discard(mod)
                    ctx.count("recovered after a failure")
            for n in bad:
                c = {"short": "short replies", "short0": "short replies", "cut chunk": "replies cut off", "reset midway": "replies cut off", "garbled": "garbled replies"}.get(how[n])
                if c and kind != "unreachable":
                    ctx.count(c)
            done = not bad
            most = 1
        elif kind == "at once":
            n = rng.choice([2, 3])
            s.meet = n
            together(ctx, s, mod, n, what)
            ctx.count("at once")
            done, most = True, n
        else:
            done = killed(ctx, s, mod, kind, root, what)
            failed.add(mod)
            most = 1
        got = tree(data)
        known = {(m, n) for m in need for n in need[m]}
        # the files the page needs
        for n, w in files.items():
            k, now = (mod, n), got.get(os.path.join("nbextensions", "plotter_scripts", mod, n))
            if "://" in w:
                times = len([a for a in s.asked if a == key(w)])
                if k in have:
                    ctx.check(now == have[k], "%s changed %s, which was installed" % (what, n))
                    ctx.check(not times, "%s fetched %s, which was installed" % (what, n))
                    ctx.count("resources kept")
                    ctx.count("not asked for again")
                else:
                    if how[n] != "circle":
                        ctx.check(times <= most, "%s asked for %s %d times" % (what, n, times))
                    if done:
                        ctx.check(now is not None, "%s did not install %s" % (what, n))
                        if kind != "unreachable" and how[n] == "redirect":
                            ctx.count("redirected")
                    if now is not None:
                        ctx.check(now == s.body[key(w)], "%s installed %s with %d bytes, it has %d (%s)" % (what, n, len(now), len(s.body[key(w)]), how[n]))
                        ctx.check(how[n] in OK and kind != "unreachable", "%s installed %s that was not received (%s)" % (what, n, how[n]))
                        have[k] = now
                        ctx.count("resources fetched whole")
            else:
                with open(w, "rb") as f:
                    own = f.read()
                if done:
                    ctx.check(now == own, "after %s, %s is not the one of the package" % (what, n))
                    if k in have and have[k] != own:
                        ctx.count("older scripts replaced")
                    ctx.count("scripts of pages found")
                elif kind not in ("stall", "kill"):
                    ctx.check(now in (None, own, have.get(k)), "after %s, %s is neither absent nor older nor the one of the package" % (what, n))
                have[k] = now
                if now is None:
                    del have[k]
        hosts = {key(w) for w in files.values() if "://" in w}
        ctx.check(all(a.replace("mirror ", "") in hosts for a in s.asked), "%s asked for %r" % (what, s.asked))
        # everything else
        for p, b in got.items():
            parts = p.split(os.sep)
            k = (parts[-2] if len(parts) == 4 else "", parts[-1])
            if k[0] == mod and k in known:
                continue
            if k in known:
                ctx.check(b == have.get(k), "%s changed %s of %s" % (what, k[1], k[0]))
            elif k in others:
                ctx.check(b == others[k], "%s changed the file %s" % (what, p))
                ctx.count("other files kept")
            elif kind in ("stall", "kill"):
                leftover.add(p)
            else:
                ctx.check(p in leftover, "%s left the file %s" % (what, p))
        for k in others:
            ctx.check(any(p.split(os.sep)[-1] == k[1] for p in got), "%s removed %s" % (what, k[1]))
        ctx.count("installations")
    ctx.seen(start, tuple(sorted((m, n) for m, n in have)), tuple(seq))
    ctx.sample(dict(start=start, installations=[(m, k, dict(h)) for m, k, h in seq]))


def tree(data):
    out = {}
    for d, _, fs in os.walk(data):
        for f in fs:
            with open(os.path.join(d, f), "rb") as g:
                out[os.path.relpath(os.path.join(d, f), data)] = g.read()
    return out


def closed_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def install(s, mod):
    with web.loopback(s.port):
        IPythonConf.iplot_install(mod)


def spawn(fn):
    """A child that exits with 0, or 1 with an exception's text in the pipe."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            try:
                fn()
                code = 0
            except BaseException as e:
                os.write(w, repr(e).encode("utf-8", "replace")[:2000])
                code = 1
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def finish(pid, r, wall=60):
    t0 = time.time()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() - t0 > wall:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            raise Inconclusive("a child did not end")
        time.sleep(.002)
    txt = b""
    while True:
        b = os.read(r, 4096)
        if not b:
            break
        txt += b
    os.close(r)
    return st, txt.decode("utf-8", "replace")


def killed(ctx, s, mod, kind, root, what):
    """An installation by a process that is killed; whether it ended before that."""
    rng = ctx.rng
    if kind == "stall":
        s.stalled.clear()
        pid, r = spawn(lambda: install(s, mod))
        # the part that was sent has been read when nothing more of it waits
        seen = s.stalled.wait(30)
        time.sleep(rng.choice([0, .002, .02]))
        os.kill(pid, signal.SIGKILL)
        finish(pid, r)
        if not seen:
            raise Inconclusive("the resource was not asked for")
        ctx.count("killed while receiving")
        return False
    k, n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10]), [0]

    def cb(_, e):
        if e[0] in ("write", "rename", "mkdir", "remove", "link", "chmod") and any(str(p).startswith(os.path.dirname(root)) for p in e[1:]):
            n[0] += 1
            if n[0] == k:
                os._exit(KILLED)

    def child():
        audit.start(cb)
        install(s, mod)
    st, txt = finish(*spawn(child))
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == KILLED:
        ctx.count("killed at a file operation")
        return False
    ctx.check(st == 0, "%s failed with %s" % (what, txt))
    return True


def together(ctx, s, mod, n, what):
    """n processes install at once; each waits for the others before making a directory."""
    meet = ctx.path("meet-%s" % hashlib.md5(what.encode()).hexdigest()[:6])
    os.makedirs(meet)

    def child(me):
        def cb(_, e):
            if e[0] == "mkdir":
                audit.events[:] = []
                name = os.path.join(meet, hashlib.md5(e[1].encode()).hexdigest())
                fd = os.open("%s.%d" % (name, me), os.O_CREAT | os.O_WRONLY)
                os.close(fd)
                t0 = time.time()
                while time.time() - t0 < .15 and not all(os.path.exists("%s.%d" % (name, i)) for i in range(n)):
                    time.sleep(.001)

        def go():
            audit.start(cb)
            install(s, mod)
        return go
    kids = [spawn(child(i)) for i in range(n)]
    for i, (pid, r) in enumerate(kids):
        st, txt = finish(pid, r)
        ctx.check(st == 0, "%s: one of %d processes installing at once failed with %s" % (what, n, txt or "status %d" % st))
