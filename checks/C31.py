"""Event plots in use: what the package's script draws, after everything a user does, against the intervals in view."""
import json, math, os, re, subprocess
from trappy.plotter.EventPlot import EventPlot
from vlib import core
from vlib.core import Inconclusive
from vlib.pages import Dom

CASES = {"quick": 400, "thorough": 20000}
RULE = ("A case is 1-2 event plots of 1-6 lanes and 1-9 names (intervals exclusive on each lane, from below a hundredth of a pixel to the whole period, touching, of no length; numbered or named lanes; "
        "with or without summary; colours of all, some or no names) on a page of a random width, and 1-10 actions: wheel, drag, selection on the summary, resize, markers, interval information, hover. "
        "After each, every plot is compared. Distinct by (lanes, names, intervals, actions).")
ASSUMPTIONS = ["the plot library behaves as its version 3.5 (a stand-in that keeps the elements runs in its place)", "intervals on one lane do not overlap, those of a name are in order",
               "intervals below a hundredth of a pixel may be left out, those below a pixel may be drawn one pixel long", "markers are set inside of the plot"]
REQUIRED = ["plots", "pictures compared", "summaries compared", "intervals drawn", "partly in view", "out of view", "below a pixel", "zooms", "drags", "drags against the end", "selections", "empty selections", "resizes",
            "resizes without summary", "markers", "markers out of view", "differences", "intervals asked for", "nothing asked for", "highlights compared", "hovers", "two plots", "colours given", "some colours given",
            "axes compared", "help"]
RUNNER = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vlib", "eventplot.js")
SURE = 0.02


def script():
    return os.path.join(core.REPO, "trappy", "plotter", "js", "EventPlot.js")


class Plot(object):
    """The model of one plot."""
    def __init__(self, ctx, n):
        rng = self.rng = ctx.rng
        t0 = rng.choice([0, 0, 100.5, 6550.018511])
        span = rng.choice([1, 10.0, 20.5, 300])
        self.domain = [t0, t0 + span]
        self.labels = rng.sample(["big", "LITTLE", "GPU", "cpu 3", "a-b", "12"], rng.randint(1, 6)) if rng.random() < .4 else None
        self.n = len(self.labels) if self.labels else rng.randint(1, 6)
        names = rng.sample(["sh-5", "adbd-100", "kworker/0:1-7", "a b", "surfaceflinger-77", "x", "constructor", "12", "Thread \"q\"-3"], rng.randint(1, 9))
        ivs = []
        for lane in range(self.n):
            t = t0 + span * rng.choice([0, 0, .1, .5])
            for _ in range(rng.choice([0, 1, 2, 4, 8, 25])):
                d = span * rng.choice([0, 1e-6, 1e-5, .0003, .001, .01, .1, .3])
                if rng.random() < .5:
                    d *= rng.random()
                s, e = round(t, 6), min(round(t + d, 6), self.domain[1])
                if s > self.domain[1]:
                    break
                ivs.append((s, max(s, e), lane, rng.choice(names)))
                t = max(s, e) + span * rng.choice([0, 0, 1e-5, .01, .05, .2])
        if not any(e > s for s, e, _, _ in ivs):
            ivs = [(t0, t0 + span / 4, 0, names[0])]
        ivs.sort(key=lambda i: (i[0], i[1]))
        self.data = {}
        for s, e, lane, name in ivs:
            self.data.setdefault(name, []).append([s, e, lane])
        self.summary = rng.random() < .75
        self.colours = None
        if rng.random() < .5:
            pool = rng.sample(["red", "#00FF00", "blue", "#010203", "teal", "gold", "pink", "#abcdef", "navy"], 9)
            ks = sorted(self.data)
            part = rng.sample(ks, rng.randint(1, len(ks))) if rng.random() < .5 else ks
            self.colours = {k: pool.pop() for k in part}
            ctx.count("colours given" if len(part) == len(ks) else "some colours given")
        kw = dict(lanes=list(self.labels)) if self.labels else dict(num_lanes=self.n)
        if not self.labels:
            if rng.random() < .5:
                kw["lane_prefix"] = "CPU :"
            self.labels = ["%s%d" % (kw.get("lane_prefix", "Lane: "), i) for i in range(self.n)]
            given = self.data
        else:
            given = {k: [[s, e, self.labels[l]] for s, e, l in v] for k, v in self.data.items()}
        if not self.summary or rng.random() < .5:
            kw["summary"] = self.summary
        if self.colours:
            kw["color_map"] = dict(self.colours)
        dom = Dom(EventPlot({k: [list(i) for i in v] for k, v in given.items()}, sorted(given), list(self.domain), **kw).html())
        self.scripts = dom.scripts
        self.id = [i for i in dom.ids if i][0]
        self.width = rng.choice([400, 700, 900, 1333])
        self.view = list(self.domain)
        self.k = 1.0
        self.marks, self.info, self.drawn = {}, None, {}
        self.lost = False
        ctx.count("plots")

    @property
    def px(self):
        return self.width - 85

    def x(self, t):
        return (t - self.view[0]) / (self.view[1] - self.view[0]) * self.px

    def keep(self):
        full = self.domain[1] - self.domain[0]
        span = min(self.view[1] - self.view[0], full)
        a = min(max(self.view[0], self.domain[0]), self.domain[1] - span)
        moved = abs(a - self.view[0]) > 1e-9 * full
        self.view = [a, a + span]
        return moved


def act(ctx, plots):
    """An action for node; changes the model."""
    rng = ctx.rng
    i = rng.randrange(len(plots))
    p = plots[i]
    full = p.domain[1] - p.domain[0]
    kind = rng.choice(["wheel", "wheel", "drag", "brush", "brush", "resize", "mark", "mark", "info", "info", "hover", "help"])
    if kind == "brush" and not p.summary:
        kind = "wheel"
    if kind == "hover":
        names = [n for n, v in p.data.items() if any(visible(p, iv) >= 2 for iv in v)]
        if not names:
            kind = "wheel"
    if kind == "wheel":
        f = rng.choice([1.5, 2, 7.3, 40, .5, .3, .01, 5000])
        at = rng.uniform(0, p.px)
        k = max(1.0, min(4096.0, p.k * f))
        t = p.view[0] + at / p.px * (p.view[1] - p.view[0])
        p.k = k
        p.view = [t - at / p.px * full / k, t + (1 - at / p.px) * full / k]
        p.keep()
        ctx.count("zooms")
        return dict(plot=i, kind=kind, at=at, factor=f)
    if kind == "drag":
        steps = [rng.choice([-1, 1]) * rng.choice([3, 40.5, 300, 2000]) for _ in range(rng.choice([1, 2, 4]))]
        for d in steps:
            s = (p.view[1] - p.view[0]) / p.px * d
            p.view = [p.view[0] - s, p.view[1] - s]
            if p.keep():
                ctx.count("drags against the end")
        ctx.count("drags")
        return dict(plot=i, kind=kind, steps=steps)
    if kind == "brush":
        extents = []
        for _ in range(rng.choice([1, 1, 3])):
            a = p.domain[0] + full * rng.choice([0, rng.random(), .5])
            b = min(p.domain[1], a + full * rng.choice([1.0, .5, .1, .01, .002]))
            if b - a < full * .001:
                a = b - full * .01
            extents.append([a, b])
        if rng.random() < .15:
            extents.append([extents[-1][0]] * 2)
            p.lost = True
            ctx.count("empty selections")
        else:
            p.view = list(extents[-1])
            p.k = full / (p.view[1] - p.view[0])
        ctx.count("selections")
        return dict(plot=i, kind=kind, extents=extents)
    if kind == "resize":
        for q in plots:
            q.width = rng.choice([400, 700, 900, 1333, 2000])
            if not q.summary:
                ctx.count("resizes without summary")
        ctx.count("resizes")
        return dict(plot=i, kind=kind, widths={q.id: q.width for q in plots})
    if kind == "mark":
        which = rng.choice("AB")
        at = round(rng.uniform(1, p.px - 1), 2)
        p.marks[which] = p.view[0] + at / p.px * (p.view[1] - p.view[0])
        ctx.count("markers")
        return dict(plot=i, kind="click", x=at + 70, y=rng.uniform(20, 30), ctrl=which == "B", alt=False)
    if kind == "info":
        height = (50 * p.n - 30) / p.n
        cand = [(n, iv) for n, v in p.data.items() for iv in v if visible(p, iv) >= 3]
        if cand and rng.random() < .8:
            n, iv = rng.choice(cand)
            mid = (max(iv[0], p.view[0]) + min(iv[1], p.view[1])) / 2
            x, lane = p.x(mid), iv[2]
            p.info = (n, iv)
            ctx.count("intervals asked for")
        else:
            # a place with nothing within 2 pixels
            for _ in range(20):
                x, lane = rng.uniform(3, p.px - 3), rng.randrange(p.n)
                if all(iv[2] != lane or p.x(iv[1]) < x - 2 or p.x(iv[0]) > x + 2 for v in p.data.values() for iv in v):
                    break
            else:
                return None
            ctx.count("nothing asked for")
        return dict(plot=i, kind="click", x=x + 70, y=15 + height * (lane + rng.uniform(.2, .8)), ctrl=True, alt=True)
    if kind == "hover":
        ctx.count("hovers")
        return dict(plot=i, kind="hover", name=rng.choice(sorted(names)))
    ctx.count("help")
    return dict(plot=i, kind="help")


def visible(p, iv):
    """Pixels of an interval in view."""
    return (min(iv[1], p.view[1]) - max(iv[0], p.view[0])) / (p.view[1] - p.view[0]) * p.px


def case(ctx):
    rng = ctx.rng
    plots = [Plot(ctx, i) for i in range(rng.choice([1, 1, 2]))]
    if len(plots) == 2:
        ctx.count("two plots")
    job = dict(sources=[script()], plots=[dict(id=p.id, width=p.width, scripts=p.scripts) for p in plots], actions=[])
    ctx.keep("plots", repr([(p.data, p.domain, p.labels, p.colours, p.summary, p.width) for p in plots]))
    snap = lambda: [dict(view=list(p.view), width=p.width, marks=dict(p.marks), info=p.info, lost=p.lost) for p in plots]
    states = [snap()]
    for _ in range(rng.choice([1, 3, 6, 10])):
        a = act(ctx, plots)
        if a is None:
            continue
        job["actions"].append(a)
        states.append(snap())
        if any(p.lost for p in plots):
            break       # where an empty selection leads is not asserted, only that the picture is sound
    ctx.keep("actions", json.dumps(job["actions"]))
    path = ctx.path("job.json")
    with open(path, "w") as f:
        json.dump(job, f)
    r = subprocess.run(["node", RUNNER, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if r.returncode:
        raise Inconclusive("node: %s" % r.stderr.decode("utf-8", "replace")[-600:])
    out = json.loads(r.stdout.decode("utf-8"))
    ctx.check(not out["errors"], "the script failed: %r" % out["errors"][:2])
    for n, (want, got) in enumerate(zip(states, out["states"])):
        what = "at first" if n == 0 else "after action %d (%s)" % (n, job["actions"][n - 1]["kind"])
        for j, (p, w, g) in enumerate(zip(plots, want, got)):
            p.__dict__.update(w)
            compare(ctx, "plot %d %s" % (j, what), p, g)
    for i, tip in out["tips"]:
        a = job["actions"][i]
        ctx.check(tip and a["name"] in tip, "pointing at %r says %r" % (a["name"], tip))
    if "dialog" in out:
        src = re.findall(r'src="([^"]*)"', out["dialog"] or "")
        ctx.check(src == ["/nbextensions/plotter_scripts/EventPlot/EventPlot_help.jpg"], "the help shows the image %r" % src)
    ctx.seen(tuple((p.n, len(p.data), sum(map(len, p.data.values())), p.summary) for p in plots), tuple((a["plot"], a["kind"]) for a in job["actions"]))
    ctx.sample(dict(lanes=[p.n for p in plots], names=[len(p.data) for p in plots], actions=[a["kind"] for a in job["actions"]]))


SEG = re.compile(r"M\s*(\S+?)[\s,]+(\S+?)\s*[HL]\s*(\S+?)(?=[\sM]|$)")


def segments(ctx, what, d):
    out = []
    rest = SEG.sub(lambda m: out.append(tuple(map(number, m.groups()))) or "", d)
    ctx.check(not rest.strip(), "%s has the path %r" % (what, d[:200]))
    return out


def number(s):
    try:
        return float(s)
    except ValueError:
        return float("nan")


def drawing(ctx, what, p, pic, view):
    """The intervals of this view are drawn, each once or more, in their lanes, and nothing else."""
    span = view[1] - view[0]
    scale = p.px / span
    texts = {}
    for s in pic["shapes"]:
        if s["tag"] == "text" and s["text"] in p.labels:
            texts.setdefault(s["text"], []).append(s["dy"] + s["y"])
    ctx.check(sorted(texts) == sorted(p.labels) and all(len(v) == 1 for v in texts.values()), "%s has the lanes %r, expected %r" % (what, texts, p.labels))
    ys = [texts[l][0] for l in p.labels]
    ctx.check(all(a < b for a, b in zip(ys, ys[1:])), "%s has its lanes at %r" % (what, ys))
    for a in pic["axes"]:
        ok = close(a["domain"], view, span * 1e-4) and close(a["range"], [0, p.px], 1e-6)
        ctx.check(ok, "%s has an axis of %r over %r, expected %r over %r" % (what, a["domain"], a["range"], view, [0, p.px]))
        ctx.count("axes compared")
    ctx.check(len(pic["axes"]) == 1, "%s has %d axes" % (what, len(pic["axes"])))
    left = pic["axes"][0]["dx"]
    view = pic["axes"][0]["domain"]      # within a tenth of a pixel of the model's: times far from 0 are not exact
    scale = p.px / (view[1] - view[0])
    ctx.check(pic["width"] == p.width, "%s is %r wide, the page has %r" % (what, pic["width"], p.width))
    got = {}
    for s in pic["shapes"]:
        if s["tag"] == "path" and s["d"] is not None:
            got.setdefault(s["name"], []).append(s)
    ctx.check(set(got) <= set(p.data), "%s draws %r" % (what, sorted(map(str, got))))
    tol = .05
    for name, ivs in p.data.items():
        segs = []
        for s in got.get(name, []):
            for x1, y, x2 in segments(ctx, what, s["d"]):
                dist = [abs(y + s["dy"] - l) for l in ys]
                lane = dist.index(min(dist))
                ctx.check(dist[lane] <= 2, "%s draws %s at the height %r, its lanes are at %r" % (what, name, y + s["dy"], ys))
                segs.append((lane, x1 + s["dx"] - left, x2 + s["dx"] - left))
            c = p.drawn.setdefault(name, s["stroke"])
            ctx.check(s["stroke"] == c, "%s draws %s in %r, before in %r" % (what, name, s["stroke"], c))
            if p.colours and name in p.colours:
                ctx.check(c == p.colours[name], "%s draws %s in %r, its colour is %r" % (what, name, c, p.colours[name]))
            if s["sw"]:
                gap = min(b - a for a, b in zip(ys, ys[1:])) if len(ys) > 1 else 50
                ctx.check(0 < s["sw"] <= gap + 1e-6, "%s draws lines %r thick, lanes are %r apart" % (what, s["sw"], gap))
        want, edge = [], []
        for s, e, lane in ivs:
            a, b = max(s, view[0]), min(e, view[1])
            if b > a:
                want.append((lane, (a - view[0]) * scale, (b - view[0]) * scale))
            elif (b - a) * scale > -1e-3 and e > s:
                edge.append((lane, (b - view[0]) * scale, (a - view[0]) * scale))     # ends where the view starts, or the other way around
            if s < view[0] < e or s < view[1] < e:
                ctx.count("partly in view")
            elif e < view[0] or s > view[1]:
                ctx.count("out of view")
        fits = lambda w, g: w[0] == g[0] and abs(w[1] - g[1]) < tol and (abs(w[2] - g[2]) < tol or w[2] - w[1] < 1 and w[1] < g[2] < w[1] + 1 + tol)
        for g in segs:
            ctx.check(any(fits(w, g) for w in want + edge), "%s draws %s on lane %d from %r to %r pixels, it is there %r" % (what, name, g[0], g[1], g[2], [w for w in want if w[0] == g[0]]))
        for w in want:
            if w[2] - w[1] >= SURE:
                ctx.check(any(fits(w, g) for g in segs), "%s does not draw %s on lane %d from %r to %r pixels, only %r" % (what, name, w[0], w[1], w[2], [g for g in segs if g[0] == w[0]]))
                ctx.count("intervals drawn")
                if w[2] - w[1] < 1:
                    ctx.count("below a pixel")
    if not p.colours:
        cs = [c for c in p.drawn.values()]
        ctx.check(len(set(cs)) == len(cs), "%s has names of one colour: %r" % (what, p.drawn))
    return left, ys


def close(a, b, tol):
    return len(a) == len(b) and all(isinstance(x, (int, float)) and abs(x - y) <= tol for x, y in zip(a, b))


def compare(ctx, what, p, g):
    ctx.check(g["main"] is not None, "%s is not there" % what)
    main = g["main"]
    if p.lost:
        ctx.check(len(main["axes"]) == 1, "%s has %d axes" % (what, len(main["axes"])))
        v = main["axes"][0]["domain"]
        full = p.domain[1] - p.domain[0]
        ok = all(isinstance(x, (int, float)) for x in v) and v[0] < v[1] and v[0] >= p.domain[0] - full * 1e-6 and v[1] <= p.domain[1] + full * 1e-6
        ctx.check(ok, "%s shows the times %r" % (what, v))
        p.view = v
    left, ys = drawing(ctx, what, p, main, p.view)
    p.view = main["axes"][0]["domain"]
    ctx.count("pictures compared")
    full = p.domain[1] - p.domain[0]
    ctx.check((g["mini"] is not None) == p.summary, "%s %s a summary" % (what, "has" if g["mini"] else "lacks"))
    if p.summary:
        view = p.view
        drawing(ctx, what + ", the summary", p, g["mini"], p.domain)
        p.view = view
        if not p.lost:
            ctx.check(close(g["brush"], p.view, (p.view[1] - p.view[0]) * 1e-4), "%s selects %r on the summary, it shows %r" % (what, g["brush"], p.view))
        ctx.count("summaries compared")
    texts = [s["text"] for i in g["info"] for s in i["shapes"] if s["tag"] == "text"]
    said = lambda prefix: [t[len(prefix):] for t in texts if t.startswith(prefix)]
    tol = 2e-6 + 1e-9 * abs(p.domain[1])
    for m in "AB":
        t = [s for s in main["shapes"] if s["tag"] == "text" and s["text"] == m]
        if m not in p.marks:
            ctx.check(not t and not said(m + " = "), "%s has a marker %s" % (what, m))
            continue
        pos = p.marks[m]
        ctx.check(len(said(m + " = ")) == 1 and abs(float(said(m + " = ")[0]) - pos) <= tol, "%s says %r of the marker %s at %r" % (what, texts, m, pos))
        x = p.x(pos)
        if -1e-3 < x < 1e-3 or abs(x - p.px) < 1e-3:
            continue
        if 0 <= x <= p.px:
            ctx.check(len(t) == 1 and abs(t[0]["x"] + t[0]["dx"] - left - x) < .05, "%s has the marker %s at %r, expected %r" % (what, m, [s["x"] for s in t], x))
            lines = [s for s in main["shapes"] if s["tag"] == "line" and s["x1"] == s["x2"] and abs(s["x1"] + s["dx"] - left - x) < .05]
            ctx.check(lines, "%s has no line at the marker %s" % (what, m))
            low, high = min(lines[0]["y1"], lines[0]["y2"]) + lines[0]["dy"], max(lines[0]["y1"], lines[0]["y2"]) + lines[0]["dy"]
            ctx.check(low < ys[0] and ys[-1] < high, "%s has a marker from %r to %r, its lanes are at %r" % (what, low, high, ys))
        else:
            ctx.check(not t, "%s shows the marker %s, which is out of view" % (what, m))
            ctx.count("markers out of view")
    d = said("A - B = ")
    if len(p.marks) == 2:
        ctx.check(len(d) == 1 and abs(abs(float(d[0])) - abs(p.marks["A"] - p.marks["B"])) <= tol, "%s says the difference of the markers is %r, they are at %r" % (what, d, p.marks))
        ctx.count("differences")
    else:
        ctx.check(not d, "%s says a difference of markers: %r" % (what, d))
    rect = [s for s in main["shapes"] if s["tag"] == "rect"]
    told = [t for t in texts if re.match(r"-?[\d.]+ to -?[\d.]+", t)]
    if p.info is None:
        ctx.check(not told and not rect, "%s says %r of an interval nobody asked for" % (what, told))
        return
    n, (s, e, lane) = p.info
    ctx.check(len(told) == 1 and n in texts, "%s says %r of %r" % (what, texts, p.info))
    v = [float(x) for x in re.findall(r"-?\d+\.\d+", told[0])]
    ctx.check(close(v, [s, e, e - s], tol), "%s says %r of %r" % (what, told, p.info))
    a, b = max(s, p.view[0]), min(e, p.view[1])
    if p.x(b) - p.x(a) > .01:
        ok = len(rect) == 1 and abs(rect[0]["x"] + rect[0]["dx"] - left - p.x(a)) < .05 and abs(rect[0]["w"] - (p.x(b) - p.x(a))) < .05
        ctx.check(ok, "%s highlights %r, expected %r to %r" % (what, [(r["x"], r["w"]) for r in rect], p.x(a), p.x(b)))
        top = rect[0]["y"] + rect[0]["dy"]
        ctx.check(top < ys[lane] < top + rect[0]["h"] and all(not top < y < top + rect[0]["h"] for i, y in enumerate(ys) if i != lane), "%s highlights from %r down %r, the lanes are at %r" % (what, top, rect[0]["h"], ys))
        ctx.count("highlights compared")
    elif a > b:
        ctx.check(not rect, "%s highlights an interval out of view" % what)
