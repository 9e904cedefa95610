"""What static plots draw: every artist on every axis of the figure against the selected samples."""
import os
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import trappy
from trappy.plotter import AttrConf, register_forwarding_arg, unregister_forwarding_arg
from vlib.frames import fingerprint
from vlib.plots import Gen

CASES = {"quick": 900, "thorough": 30000}
RULE = ("A case is a line or bar plot of 1-3 tables or traces, 1-3 columns, with or without pivot, filters, concat, permute, signals with or without colours, plots per line, labels of "
        "pivot values, limits, title, drawing style, scatter, fill, stacking and spacing. Every line, bar, title, legend entry, colour and limit of the figure is read back. "
        "Distinct by (kind, arrangement, shape, samples of each series, options).")
ASSUMPTIONS = ["filters hold lists of values", "pivots of one call are all of one type and none is missing", "times are ordered", "all signals have a colour or none has"]
REQUIRED = ["line plots", "bar plots", "lines compared", "bars compared", "axes compared", "legend entries compared", "plain", "concatenated", "permuted", "with pivot", "stacked",
            "series of different lengths in one bar plot", "fill", "scatter", "signals", "colours given", "limits", "labelled pivots", "empty selections refused", "several axes",
            "axes removed", "saved", "a pivot that some series do not have", "forwarded arguments", "axes from the top to the bottom", "many areas"]


def case(ctx):
    try:
        one(ctx)
    finally:
        plt.close("all")


def one(ctx):
    rng = ctx.rng
    bar = rng.random() < .35
    g = Gen(rng, AttrConf.PIVOT_VAL, numeric=("x", "y") if bar else ("x", "y", "z"), drop=.06)
    concat = rng.random() < (.3 if g.ncol < 4 else .1)
    per_line = rng.choice([None, 1, 2, 3, 4, 7])
    kw = {}
    if g.pivot is not None:
        kw["pivot"] = g.pivot
    if g.filters or rng.random() < .2:
        kw["filters"] = {k: list(v) for k, v in g.filters.items()}
    if concat or rng.random() < .2:
        kw["concat"] = concat
    if g.permute or rng.random() < .2:
        kw["permute"] = g.permute
    if per_line:
        kw["per_line"] = per_line
    per_line = per_line or AttrConf.PER_LINE
    if rng.random() < .3:
        kw["map_label"] = {p: rng.choice(["label %s" % p, "label %s" % p, 0, "", 1.5, "l: %s" % p]) for p in [0, 1, "2", "0f", "big", "GPU", 10]}
    labels = kw.get("map_label", {})
    for k in ("xlim", "ylim"):
        if rng.random() < .25:
            lo = rng.choice([-3, 0, 1.5])
            kw[k] = (lo, lo + rng.choice([1, 2.5, 100, -2, -.5]))
            if kw[k][1] < lo:
                ctx.count("axes from the top to the bottom")
            if rng.random() < .3:
                kw[k] = list(kw[k])
    if rng.random() < .3:
        kw["title"] = rng.choice(["A title", "T: 1", "ü"])
    if rng.random() < .2:
        kw["width"], kw["length"] = rng.choice([3, 5]), rng.choice([3, 4])
    if rng.random() < .2:
        kw["legend_ncol"] = rng.choice([1, 2, 5])
    if rng.random() < .1:
        kw["style"] = False
    colors = None
    traces, templates, column = g.args()
    if not g.frames and rng.random() < .4:
        if rng.random() < .5:
            colors = [rng.choice([tuple(rng.randint(0, 255) for _ in range(3))] * 3 + [(0, 0, 0), (255, 255, 255)]) for _ in range(g.ncol)]
            ctx.count("colours given")
        kw["signals"] = g.signals(colors)
        templates = None
        ctx.count("signals")
    else:
        kw["column"] = column
    forward = {}
    stacked = spacing = None
    if bar:
        stacked = rng.random() < .4
        if stacked or rng.random() < .3:
            kw["stacked"] = stacked
        spacing = rng.choice([None, .1, .5])
        if spacing:
            kw["spacing"] = spacing
        spacing = spacing or .2
    else:
        if rng.random() < (.7 if g.ncol > 3 else .28):
            kw["fill"] = True
        elif rng.random() < .3:
            kw["drawstyle"] = rng.choice(["steps-post", "steps-pre", "steps-mid"])
            forward["drawstyle"] = kw["drawstyle"]
        if rng.random() < .25:
            kw["scatter"] = True
            if rng.random() < .5:
                kw["point_size"] = rng.choice([1, 4, 7])
        if rng.random() < .2:
            forward["linewidth"] = kw["linewidth"] = rng.choice([.5, 3])
        if rng.random() < .15:
            register_forwarding_arg("alpha")
            forward["alpha"] = kw["alpha"] = rng.choice([.25, .5])
    ctx.keep("sources", g.text())
    ctx.keep("arguments", repr((bar, g.describe(), kw)))
    cons = g.constraints()
    pivots = g.pivots(cons)
    cls = trappy.BarPlot if bar else trappy.LinePlot
    before = [fingerprint(d) for tabs in g.tables for d in tabs.values()]
    args = (traces,) if templates is None and rng.random() < .5 else (traces, templates)
    if len(args) == 2 and rng.random() < .3:
        args, kw = (traces,), dict(kw, templates=templates)
    try:
        plot = cls(*args, **kw)
        if not pivots and not concat:
            try:
                plot.view(test=True)
            except RuntimeError:
                ctx.count("empty selections refused")
            else:
                ctx.check(False, "a plot without any data was drawn")
            return
        if rng.random() < .08:
            path = ctx.path("plot.png")
            plot.savefig(path)
            with open(path, "rb") as f:
                ctx.check(f.read(8) == b"\x89PNG\r\n\x1a\n", "no picture was saved")
            ctx.count("saved")
        else:
            plot.view(test=True)
    finally:
        unregister_forwarding_arg("alpha")
    ctx.check(before == [fingerprint(d) for tabs in g.tables for d in tabs.values()], "plotting changed the data")
    nums = plt.get_fignums()
    ctx.check(len(nums) == 1, "%d figures were made" % len(nums))
    fig = plt.figure(nums[0])
    if concat:
        axes = [(c.title, [(c, p, pivots.index(p)) for p in pivots if p in c.series]) for c in cons]
        label = lambda c, p: set(g.columns) if g.pivot is None else "%s: %s" % (g.pivot, labels.get(p, p))
    elif g.permute:
        axes = [(cons[s * g.ncol].label, [(c, p, c.signal_index) for c in cons if c.src == s and p in c.series]) for s in range(g.nsrc) for p in pivots]
        axes = []
        for s in range(g.nsrc):
            for p in pivots:
                series = [(c, p, k) for k, c in enumerate(cons[s * g.ncol:(s + 1) * g.ncol]) if p in c.series]
                axes.append((cons[s * g.ncol].label, series))
        label = lambda c, p: c.signal
    else:
        axes = [("" if g.pivot is None else "%s: %s" % (g.pivot, labels.get(p, p)), [(c, p, k) for k, c in enumerate(cons) if p in c.series]) for p in pivots]
        label = lambda c, p: c.title
    have = fig.get_axes()
    ctx.check(len(have) == len(axes), "the figure has %d axes, expected %d" % (len(have), len(axes)))
    positions(ctx, have, min(per_line, len(axes)))
    legends = fig.legends
    ctx.check(len(legends) == 1, "the figure has %d legends" % len(legends))
    texts = [t.get_text() for t in legends[0].get_texts()]
    entries = {}
    for title, series in axes:
        for c, p, k in series:
            entries[k] = label(c, p)
    want = [entries[k] for k in sorted(entries)]
    if concat and g.pivot is None:
        # one entry for whatever columns there are
        texts = [set(t.split(",")) for t in texts]
    ctx.check(texts == want, "the legend reads %r, expected %r" % (texts, want))
    ctx.count("legend entries compared", len(want))
    handles = [hue(h) for h in legends[0].legendHandles]
    entry_hue = dict(zip(sorted(entries), handles))
    if not colors:
        ctx.check(len(set(handles)) == len(handles), "two series of the legend have the same colour: %r" % handles)
    if "title" in kw:
        ctx.check(fig._suptitle is not None and fig._suptitle.get_text() == kw["title"], "the figure is not titled %r" % kw["title"])
    for n, (ax, (title, series)) in enumerate(zip(have, axes)):
        what = "axis %d (%s)" % (n, title)
        ctx.check(ax.get_title() == (title if series else ""), "%s has the title %r" % (what, ax.get_title()))
        if series:
            for k, got in (("xlim", ax.get_xlim), ("ylim", ax.get_ylim)):
                if k in kw:
                    ctx.check(tuple(got()) == tuple(kw[k]), "%s has %s %r, given %r" % (what, k, got(), kw[k]))
                    ctx.count("limits")
        hues = bars(ctx, ax, series, what, stacked, spacing) if bar else lines(ctx, ax, series, what, kw, forward)
        for (c, p, k), h in zip(series, hues):
            ctx.check(close(h, entry_hue[k]), "%s: the series %s of %r is drawn in %r, %r in the legend has %r" % (what, c.title, p, h, entries[k], entry_hue[k]))
            if colors and not concat and k < len(colors):
                ctx.check(close(h, tuple(v / 255. for v in colors[k])), "%s: the series %s is drawn in %r, given %r" % (what, c.title, h, colors[k]))
        ctx.count("axes compared")
    ctx.count("bar plots" if bar else "line plots")
    ctx.count("concatenated" if concat else "permuted" if g.permute else "plain")
    for k, name in (("fill", "fill"), ("scatter", "scatter"), ("stacked", "stacked"), ("map_label", "labelled pivots"), ("pivot", "with pivot")):
        if kw.get(k):
            ctx.count(name)
    if forward:
        ctx.count("forwarded arguments")
    if len(axes) > 1:
        ctx.count("several axes")
        if len(axes) % min(per_line, len(axes)):
            ctx.count("axes removed")
    if any(p not in c.series for c in cons for p in pivots):
        ctx.count("a pivot that some series do not have")
    ctx.seen(bar, concat, g.permute, g.nsrc, g.ncol, g.frames, per_line, tuple(sorted(k for k in kw)), tuple(tuple(len(c.series[p]) for c, p, _ in s) for _, s in axes))
    ctx.sample(dict(g.describe(), bar=bar, options=sorted(kw)))


def hue(artist):
    c = artist.get_facecolor() if hasattr(artist, "get_facecolor") else artist.get_color()
    return tuple(round(float(v), 6) for v in matplotlib.colors.to_rgb(c))


def close(a, b):
    return all(abs(x - y) < 1e-5 for x, y in zip(a, b))


def positions(ctx, axes, cols):
    """In row-major order, none over another."""
    spans = []
    for i, ax in enumerate(axes):
        s = ax.get_subplotspec()
        g = s.get_gridspec()
        ctx.check(g.ncols == cols and (i // cols, i % cols) == (s.rowspan.start, s.colspan.start), "axis %d is in row %d, column %d of %d columns (%d expected)" % (i, s.rowspan.start, s.colspan.start, g.ncols, cols))


def lines(ctx, ax, series, what, kw, forward):
    got = ax.get_lines()
    ctx.check(len(got) == len(series), "%s has %d lines, expected %d" % (what, len(got), len(series)))
    for line, (c, p, k) in zip(got, series):
        pts = list(zip(np.asarray(line.get_xdata(orig=True)).tolist(), np.asarray(line.get_ydata(orig=True)).tolist()))
        ctx.check(pts == c.series[p], "%s: %s of %r is drawn as %r, expected %r" % (what, c.title, p, pts[:15], c.series[p][:15]))
        ctx.count("lines compared")
        if kw.get("scatter"):
            ctx.check(line.get_linestyle() == "None" and line.get_marker() == "o", "%s: not a scatter plot: %r %r" % (what, line.get_linestyle(), line.get_marker()))
            if "point_size" in kw:
                ctx.check(line.get_markersize() == kw["point_size"], "%s: points of size %r" % (what, line.get_markersize()))
        else:
            ctx.check(line.get_linestyle() == "-", "%s: line style %r" % (what, line.get_linestyle()))
        for name, value in forward.items():
            have = getattr(line, "get_" + name)()
            ctx.check(have == value, "%s: %s is %r, given %r" % (what, name, have, value))
    if kw.get("fill"):
        ctx.check(len(ax.collections) == len(series), "%s: %d areas filled for %d lines" % (what, len(ax.collections), len(series)))
        ctx.check(len({a.get_alpha() for a in ax.collections}) <= 1 and all(a.get_alpha() is None or a.get_alpha() > 0 for a in ax.collections), "%s: the areas under the lines are not equally visible: %r" % (
            what, [a.get_alpha() for a in ax.collections]))
        if len(series) > 3:
            ctx.count("many areas")
        for area, line in zip(ax.collections, got):
            ctx.check(close(area.get_facecolor()[0][:3], hue(line)), "%s: the area under a line has another colour" % what)
            top = {tuple(v) for v in area.get_paths()[0].vertices.tolist()} if area.get_paths() else set()
            pts = {tuple(map(float, v)) for v in zip(line.get_xdata(), line.get_ydata())}
            ctx.check(pts <= top, "%s: the area does not follow the line: %r" % (what, sorted(pts - top)[:5]))
    else:
        ctx.check(not ax.collections, "%s has %d areas" % (what, len(ax.collections)))
    return [hue(l) for l in got]


def bars(ctx, ax, series, what, stacked, spacing):
    got = ax.containers
    ctx.check(len(got) == len(series) and len(ax.patches) == sum(len(c.series[p]) for c, p, _ in series), "%s has %d groups with %d bars" % (what, len(got), len(ax.patches)))
    n = 1 if stacked else len(series)
    width = (1 - spacing) / n if n else 0
    tops = {}
    start = None
    for i, (cont, (c, p, k)) in enumerate(zip(got, series)):
        vals = [v for _, v in c.series[p]]
        rects = list(cont.patches)
        ctx.check(len(rects) == len(vals), "%s: %s of %r has %d bars, expected %d" % (what, c.title, p, len(rects), len(vals)))
        for j, (r, v) in enumerate(zip(rects, vals)):
            x, y, w, h = r.get_x(), r.get_y(), r.get_width(), r.get_height()
            if start is None:
                start = x
            ctx.check(np.isclose(h, v), "%s: bar %d of %s of %r is %r high, expected %r" % (what, j, c.title, p, h, v))
            base = tops.get(j, 0) if stacked else 0
            ctx.check(np.isclose(y, base), "%s: bar %d of %s of %r starts at %r, expected %r" % (what, j, c.title, p, y, base))
            tops[j] = base + v
            at = start + j + (0 if stacked else i * width)
            ctx.check(np.isclose(w, width) and np.isclose(x, at), "%s: bar %d of %s of %r is %r wide at %r, expected %r at %r" % (what, j, c.title, p, w, x, width, at))
            ctx.count("bars compared")
    if len({len(c.series[p]) for c, p, _ in series}) > 1:
        ctx.count("series of different lengths in one bar plot")
    return [hue(cont.patches[0]) for cont in got]
