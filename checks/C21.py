"""Interactive plots: the page as shown is loaded, its scripts are run with a recording plot library, and what reaches the library is compared with the selection."""
import math
import os
import numpy as np
import trappy
from trappy.plotter import AttrConf
from trappy.plotter.ILinePlot import ILinePlot
from trappy.utils import handle_duplicate_index
from vlib import core, web
from vlib.frames import fingerprint
from vlib.pages import Dom, play, shown
from vlib.plots import Gen
import pandas as pd

CASES = {"quick": 360, "thorough": 20000}
RULE = ("A case is an interactive plot of 1-3 tables or traces, 1-3 columns, with or without pivot, filters, concat, permute, signals and their colours, limits, drawing style, fill, "
        "scatter, labels, zoom groups and a limit on the number of points; its page's scripts, with the plotting script of the package, run in node with a stand-in for the plot "
        "library that records every plot made. Distinct by (arrangement, shape, samples of each series, options).")
ASSUMPTIONS = ["filters hold lists of values", "pivots of one call are all of one type and none is missing", "times are ordered", "no text in titles and labels ends a script",
               "all signals have a colour or none has", "what the plot library does with its data and options is not observed"]
REQUIRED = ["pages", "plots compared", "series compared", "samples compared", "plots of several series", "plain", "concatenated", "permuted", "drawn in steps", "drawn as lines", "limits on x",
            "limits on y", "fill", "scatter", "colours", "zoom synchronised", "zoom not synchronised", "named groups", "too many points refused", "exactly as many points as allowed accepted",
            "empty selections refused", "unused cells", "scripts installed", "series with repeated times", "equal labels told apart", "notebooks", "plots told apart"]


def case(ctx):
    if ctx.rng.random() < .12:
        return notebook(ctx)
    one(ctx)


def notebook(ctx):
    """Several interactive plots in one page: zoom is shared within a plot or a named group only."""
    rng = ctx.rng
    texts, groups, n = [], {}, 0
    named = {k: rng.random() < .6 for k in ("A", "B")}
    desc = []
    for j in range(rng.choice([2, 2, 3, 4])):
        k = rng.randint(1, 3)
        t0 = rng.choice([0.0, 3.5, 10.25])
        rows = [(t0 + .5 * i, i % k, rng.randrange(9)) for i in range(k * rng.choice([1, 3]))]
        df = pd.DataFrame({"p": [r[1] for r in rows], "x": [r[2] for r in rows]}, index=pd.Index([r[0] for r in rows], name="Time"))
        kw = dict(column="x", pivot="p")
        g = rng.choice([None, None, "A", "B"])
        sync_zoom = rng.random() < .6 if g is None else named[g]
        if g is not None:
            kw["group"] = g
        if sync_zoom or rng.random() < .5:
            kw["sync_zoom"] = sync_zoom
        # each plot is gone when the next is made
        texts.append(view(ctx, ILinePlot(df, **kw), True))
        desc.append((k, kw, rows))
        e = groups.setdefault(g or "plot %d" % j, dict(graphs=[], sync=sync_zoom, lo=[], hi=[]))
        e["graphs"] += range(n, n + k)
        for piv in range(k):
            e["lo"].append(min(r[0] for r in rows if r[1] == piv))
            e["hi"].append(max(r[0] for r in rows if r[1] == piv))
        n += k
    ctx.keep("plots", "\n".join(map(repr, desc)))
    ctx.keep("page", "\n".join(texts)[:20000])
    dom = Dom("\n".join(texts))
    ctx.check(len(dom.ids) == len(set(dom.ids)), "two elements of the notebook have the same id")
    r = play(ctx, dom, [script()])
    ctx.check(len(r["graphs"]) == n, "the notebook shows %d plots, expected %d: %r" % (len(r["graphs"]), n, r["errors"]))
    live = sorted(sorted(s["graphs"]) for s in r["synced"] if not s["detached"])
    want = sorted(e["graphs"] for e in groups.values() if e["sync"] and len(e["graphs"]) > 1)
    ctx.check(live == want, "the plots %r of the notebook are synchronised, expected %r" % (live, want))
    for name, e in groups.items():
        for i, lo, hi in zip(e["graphs"], e["lo"], e["hi"]):
            if len(e["graphs"]) > 1:
                lo, hi = min(e["lo"]), max(e["hi"])
            ctx.check([num(v) for v in r["graphs"][i]["x"]] == [lo, hi], "plot %d (%s) of the notebook shows the times %r, expected %r" % (i, name, r["graphs"][i]["x"], [lo, hi]))
    ctx.count("notebooks")
    ctx.count("plots told apart", len(groups))
    ctx.seen("notebook", tuple((k, e["sync"], len(e["graphs"])) for k, e in sorted(groups.items())))


def one(ctx):
    rng = ctx.rng
    g = Gen(rng, AttrConf.PIVOT_VAL, drop=.06)
    kw = {}
    concat = rng.random() < .3
    if g.pivot is not None:
        kw["pivot"] = g.pivot
    if g.filters or rng.random() < .2:
        kw["filters"] = {k: list(v) for k, v in g.filters.items()}
    if concat or rng.random() < .2:
        kw["concat"] = concat
    if g.permute or rng.random() < .2:
        kw["permute"] = g.permute
    if rng.random() < .6:
        kw["per_line"] = rng.choice([1, 2, 3, 4])
    if rng.random() < .3:
        kw["map_label"] = {p: rng.choice(["label %s" % p, "label %s" % p, 0, "", 1.5, "l: %s" % p]) for p in [0, 1, "2", "0f", "big", "GPU", 10]}
    labels = kw.get("map_label", {})
    if rng.random() < .3:
        ts = [float(t) for tabs in g.tables for d in tabs.values() for t in d.index]
        lo = rng.choice(ts) + rng.choice([0, -1, .25])
        kw["xlim"] = rng.choice([tuple, list])((lo, lo + rng.choice([.5, 2, 100])))
        g.window = tuple(kw["xlim"])
    if rng.random() < .25:
        kw["ylim"] = rng.choice([(0, 10), [-1.5, 1], (0, 0), [None, 5]])
    if rng.random() < .3:
        kw["title"] = rng.choice(["A title", "T: 1", "a 'b' \\ c", "µs"])
    style = rng.choice([None, None, "steps-post", "steps-pre", "steps-mid"])
    if style:
        kw["drawstyle"] = style
    if rng.random() < .2:
        kw["fill"] = True
    if rng.random() < .15:
        kw["fill_alpha"] = rng.choice([.5, 0, 1])
    if rng.random() < .2:
        kw["scatter"] = True
    if rng.random() < .2:
        kw["point_size"] = 5
    if rng.random() < .4:
        kw["sync_zoom"] = rng.random() < .7
    if rng.random() < .25:
        kw["group"] = "group one"
    traces, templates, column = g.args()
    colors = None
    if not g.frames and rng.random() < .5:
        if rng.random() < .6:
            colors = [rng.choice([[rng.randint(0, 255) for _ in range(3)]] * 3 + [[0, 0, 0], [255, 255, 255]]) for _ in range(g.ncol)]
        kw["signals"] = g.signals(colors)
        templates = None
    else:
        kw["column"] = column
    ctx.keep("sources", g.text())
    ctx.keep("arguments", repr((g.describe(), kw, colors)))
    cons = g.constraints()
    pivots = g.pivots(cons)
    plots = arrange(g, cons, pivots, concat, labels)
    before = [fingerprint(d) for tabs in g.tables for d in tabs.values()]
    plot = ILinePlot(traces, templates, **kw)
    if not plots:
        try:
            view(ctx, plot, True)
        except RuntimeError:
            ctx.count("empty selections refused")
        else:
            ctx.check(False, "a plot without any data was shown")
        return
    size = {}
    if rng.random() < .3:
        most = max(points(s) for _, s, _ in plots)
        if most > 1 and rng.random() < .5:
            try:
                view(ctx, plot, True, max_datapoints=most - 1)
            except ValueError:
                ctx.count("too many points refused")
            else:
                ctx.check(False, "a plot of %d points was shown with a limit of %d" % (most, most - 1))
            return
        size = dict(max_datapoints=most)
    text = view(ctx, plot, rng.random() < .7, **size)
    if size:
        ctx.count("exactly as many points as allowed accepted")
    ctx.check(before == [fingerprint(d) for tabs in g.tables for d in tabs.values()], "plotting changed the data")
    ctx.keep("page", text[:20000])
    page(ctx, g, kw, style, plots, colors, concat, text)
    ctx.count("pages")
    ctx.count("concatenated" if concat else "permuted" if g.permute else "plain")
    ctx.seen(concat, g.permute, g.nsrc, g.ncol, g.frames, style, tuple(sorted(kw)), tuple(tuple(len(x) for _, x, _ in s) for _, s, _ in plots))
    ctx.sample(dict(g.describe(), options=sorted(kw)))


def arrange(g, cons, pivots, concat, labels):
    """[(title, [(label, samples, signal index)], expected number of signals)]"""
    name = lambda p: "%s: %s" % (g.pivot, labels.get(p, p))
    if concat:
        return [(c.title, [(name(p) if g.pivot else None, c.series[p], None) for p in pivots if p in c.series], 0) for c in cons]
    if g.permute:
        return [(cons[s * g.ncol].label, [(c.signal, c.series[p], c.signal_index) for c in cons[s * g.ncol:(s + 1) * g.ncol] if p in c.series], g.ncol) for s in range(g.nsrc) for p in pivots]
    return [(name(p) if g.pivot else "", [(c.title, c.series[p], k) for k, c in enumerate(cons) if p in c.series], len(cons)) for p in pivots]


def view(ctx, plot, test, **kw):
    """The one page shown."""
    data = ctx.path("jupyter")
    os.environ["JUPYTER_DATA_DIR"] = data
    with web.pages() as asked, shown() as out:
        plot.view(test=test, **kw)
    ctx.check(len(out) == 1 and isinstance(out[0], str), "%d pages were shown" % len(out))
    if not test:
        base = os.path.join(data, "nbextensions", "plotter_scripts", "ILinePlot")
        have = sorted(os.listdir(base))
        ctx.check(have == ["ILinePlot.js", "dygraph-combined.js", "synchronizer.js", "underscore-min.js"], "scripts installed: %r" % have)
        ctx.check(sorted(os.path.basename(u) for u in asked) == have[1:], "fetched %r" % asked)
        for u in asked:
            with open(os.path.join(base, os.path.basename(u)), "rb") as f:
                ctx.check(f.read() == web.content(u), "what was installed is not what is at %s" % u)
        with open(os.path.join(base, "ILinePlot.js")) as f, open(script()) as s:
            ctx.check(f.read() == s.read(), "the script installed is not the package's")
        ctx.count("scripts installed")
    else:
        ctx.check(not asked and not os.path.exists(data), "a test view fetched %r" % asked)
    return out[0]


def script():
    return os.path.join(core.REPO, "trappy", "plotter", "js", "ILinePlot.js")


def merged(series, style):
    """The times of a plot, and for each series {time: value} of its own samples."""
    if len(series) == 1:
        return None, [series[0][1]]
    own = []
    for _, s, _ in series:
        d = handle_duplicate_index(pd.Series([v for _, v in s], index=[t for t, _ in s]))
        own.append(list(zip([float(t) for t in d.index], d.tolist())))
    return sorted({t for o in own for t, _ in o}), own


def points(series):
    times, own = merged(series, None) if series else (None, [[]])
    return len(own[0]) if times is None else len(times) * len(own)


def num(v):
    return float(v["$num"].lower().replace("infinity", "inf")) if isinstance(v, dict) else v


def page(ctx, g, kw, style, plots, colors, concat, text):
    per_line = min(kw.get("per_line", AttrConf.PER_LINE), len(plots))
    dom = Dom(text)
    ctx.check(len(dom.ids) == len(set(dom.ids)), "two elements of the page have the same id")
    ctx.check(dom.caption == kw.get("title"), "the caption is %r, given %r" % (dom.caption, kw.get("title")))
    grid = -(-len(plots) // per_line)
    ctx.check([len(r) for r in dom.rows] == [per_line] * (2 * grid), "the rows of the page have %r cells, expected %d in each of %d" % ([len(r) for r in dom.rows], per_line, 2 * grid))
    cells = [i for r in dom.rows[::2] for c in r for i in c]
    legends = [i for r in dom.rows[1::2] for c in r for i in c]
    ctx.check(len(cells) == grid * per_line == len(legends), "%d cells and %d legends" % (len(cells), len(legends)))
    r = play(ctx, dom, [script()])
    graphs = {}
    for q in r["graphs"]:
        ctx.check(q["div"] is not None, "a plot is made without its element: %r" % q["options"].get("labelsDiv"))
        ctx.check(q["div"] not in graphs, "two plots in the element %r" % q["div"])
        graphs[q["div"]] = q
    ctx.check(set(graphs) == set(cells[:len(plots)]), "plots in cells %r, expected in the first %d" % (sorted(cells.index(d) for d in graphs if d in cells), len(plots)))
    if len(cells) > len(plots):
        ctx.count("unused cells")
    for k, (title, series, nsig) in enumerate(plots):
        q, o = graphs[cells[k]], graphs[cells[k]]["options"]
        what = "plot %d (%s)" % (k, title)
        ctx.check(o["title"] == title, "%s is titled %r" % (what, o["title"]))
        ctx.check(o["labelsDiv"] == legends[k], "%s has its legend in %r, expected %r" % (what, o["labelsDiv"], legends[k]))
        ctx.check(o["stepPlot"] == bool(style), "%s is drawn with steps: %r, style %r" % (what, o["stepPlot"], style))
        ctx.count("drawn in steps" if style else "drawn as lines")
        ctx.check(o["fillGraph"] == ("fill" in kw or "fill_alpha" in kw) and o.get("fillAlpha") == kw.get("fill_alpha"), "%s is filled: %r %r" % (what, o["fillGraph"], o.get("fillAlpha")))
        ctx.check(o["drawPoints"] == ("scatter" in kw) and (o["strokeWidth"] == 0) == ("scatter" in kw), "%s: points %r, lines of width %r" % (what, o["drawPoints"], o["strokeWidth"]))
        ctx.check(o["pointSize"] == kw.get("point_size", AttrConf.POINT_SIZE), "%s: points of size %r" % (what, o["pointSize"]))
        # nothing that would draw other values than the samples
        ctx.check(o.get("rollPeriod") in (None, 1) and not any(o.get(k) for k in ("errorBars", "fractions", "customBars", "logscale", "stackedGraph", "visibility")),
                  "%s is drawn with %r" % (what, {k: o.get(k) for k in ("rollPeriod", "errorBars", "fractions", "customBars", "logscale", "stackedGraph", "visibility")}))
        for name, key, cnt in (("xlim", "dateWindow", "limits on x"), ("ylim", "valueRange", "limits on y")):
            ctx.check(o.get(key) == (list(kw[name]) if name in kw else None), "%s: %s is %r" % (what, key, o.get(key)))
            if name in kw:
                ctx.count(cnt)
        ctx.check(q["sizes"] and abs(q["sizes"][-1][0] - 900. / per_line) < 10, "%s is %r wide, %d per line of 900" % (what, q["sizes"], per_line))
        for name in ("fill", "scatter"):
            if name in kw:
                ctx.count(name)
        data(ctx, g, what, series, style, q, o, kw, concat)
        if colors:
            have = o.get("colors")
            ctx.check(have and all(isinstance(c, str) for c in have), "%s has no colours" % what)
            if not concat:
                for j, (lab, _, s) in enumerate(series):
                    want = "rgb(%d, %d, %d)" % tuple(colors[s % len(colors)])
                    ctx.check(have[j % len(have)] == want, "%s: %s is drawn in %r, given %r" % (what, lab, have[j % len(have)], want))
                    ctx.count("colours")
        else:
            ctx.check(o.get("colors") is None, "%s has colours %r" % (what, o.get("colors")))
        ctx.count("plots compared")
    sync(ctx, kw, r, [graphs[c] for c in cells[:len(plots)]])


def data(ctx, g, what, series, style, q, o, kw, concat):
    labels = o["labels"]
    ctx.check(labels[0] == "index" and len(labels) == len(series) + 1 and len(set(labels)) == len(labels), "%s has the labels %r for %d series" % (what, labels, len(series)))
    for (lab, _, _), have in zip(series, labels[1:]):
        if lab is None:
            # whatever columns there are
            lab = have if set(have.split(",")) == set(g.columns) else ",".join(g.columns)
        twice = [l for l, _, _ in series].count(lab) > 1
        ctx.check(have == lab or twice and have.startswith(lab), "%s: the series %r is labelled %r" % (what, lab, have))
        if twice:
            ctx.count("equal labels told apart")
    rows = [[num(v) for v in row] for row in q["data"]]
    times, own = merged(series, style) if series else ([], [])
    ctx.check(all(len(row) == len(labels) for row in rows), "%s has rows of another length than its labels" % what)
    if times is None:
        have = [tuple(row) for row in rows]
        ctx.check(have == own[0], "%s holds %r, expected %r" % (what, have[:15], own[0][:15]))
        ctx.count("samples compared", len(have))
        ctx.count("series compared")
        return
    xs = [row[0] for row in rows]
    ctx.check(xs == times, "%s has samples at %r, expected %r" % (what, xs[:30], times[:30]))
    for j, s in enumerate(own):
        st, sv = [t for t, _ in s], [v for _, v in s]
        lab = labels[j + 1]
        if len(series[j][1]) != len({t for t, _ in series[j][1]}):
            ctx.count("series with repeated times")
        at = dict(s)
        for x, row in zip(xs, rows):
            v = row[j + 1]
            if x in at:
                ctx.check(v == at[x], "%s: %s at %r is %r, expected %r" % (what, lab, x, v, at[x]))
                ctx.count("samples compared")
                continue
            none = v is None or math.isnan(v)
            before, after = [i for i, t in enumerate(st) if t < x], [i for i, t in enumerate(st) if t > x]
            if before and after:
                if style == "steps-pre":
                    want = sv[after[0]]
                elif style:
                    want = sv[before[-1]]
                else:
                    want = float(np.interp(x, st, sv))
                ctx.check(none or abs(v - want) <= 1e-6 * max(1, abs(want)), "%s: %s at %r, between its samples, is %r, expected %r" % (what, lab, x, v, want))
            else:
                edge = sv[before[-1]] if before else sv[after[0]]
                ctx.check(none or v == edge, "%s: %s at %r, outside its samples, is %r" % (what, lab, x, v))
            ctx.count("filled in")
        ctx.count("series compared")
    ctx.count("plots of several series")
    raw = [[num(v) for v in row] for row in q["raw"]]
    # the decoys put around the data to synchronise plots aside
    ctx.check(eq(raw, rows) or eq(raw[1:-1], rows), "%s: the samples were changed after the plot was made" % what)


def eq(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(p == q or (p != p and q != q) for p, q in zip(x, y)) for x, y in zip(a, b))


def sync(ctx, kw, r, graphs):
    live = [s for s in r["synced"] if not s["detached"]]
    if kw.get("sync_zoom") and len(graphs) > 1:
        ctx.check(len(live) == 1 and sorted(live[0]["graphs"]) == list(range(len(graphs))) and live[0]["options"].get("zoom") is True, "%d plots are synchronised as %r" % (len(graphs), live))
        ctx.count("zoom synchronised")
    else:
        ctx.check(not live, "plots are synchronised, which was not asked for: %r" % live)
        if len(graphs) > 1:
            ctx.count("zoom not synchronised")
    if "group" in kw:
        ctx.count("named groups")
    if len(graphs) > 1 and all(g["data"] for g in graphs):
        lo = min(g["options"]["dateWindow"][0] if g["options"].get("dateWindow") else num(g["data"][0][0]) for g in graphs)
        hi = max(g["options"]["dateWindow"][1] if g["options"].get("dateWindow") else num(g["data"][-1][0]) for g in graphs)
        for g in graphs:
            ctx.check([num(v) for v in g["x"]] == [lo, hi], "the plots of a group do not show the same times: %r, expected %r" % (g["x"], [lo, hi]))
