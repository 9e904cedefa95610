"""Grids of plots and colour maps."""
import json
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from trappy.plotter.ColorMap import ColorMap, to_dygraph_colors
from trappy.plotter.PlotLayout import PlotLayout

CASES = {"quick": 260, "thorough": 40000}
RULE = ("A case is one grid of 1-20 plots with 1-8 per line (every pair with up to 12 plots in turn), with or without sizes and a title, all indices asked for in a random order, and "
        "finished at any index; and colour maps of 1-40 RGB triples and of 1-60 gradient steps, forwards, inverse and in page syntax. Distinct by (plots, per line, index finished at, number of colours).")
ASSUMPTIONS = ["indices asked for are below the number of plots", "RGB values are 0-255"]
REQUIRED = ["grids", "axes located", "axes removed", "empty grids refused", "one plot", "one row", "one column", "rows and columns", "early finishes", "RGB colours", "inverse colours", "gradient colours", "page colours"]


def case(ctx):
    try:
        grid(ctx)
    finally:
        plt.close("all")
    colours(ctx)


def grid(ctx):
    rng = ctx.rng
    pairs = [(n, c) for n in range(1, 13) for c in range(1, 9)]
    if ctx.i < len(pairs):
        n, cols = pairs[ctx.i]
    else:
        n, cols = rng.randint(1, 20), rng.randint(1, 8)
    kw = {}
    if rng.random() < .4:
        kw.update(width=rng.choice([2, 3, 7]), length=rng.choice([2, 4]))
    if rng.random() < .4:
        kw["title"] = rng.choice(["title", None, ""])
    ctx.keep("grid", repr((n, cols, kw)))
    if rng.random() < .15:
        try:
            PlotLayout(cols, 0, **kw)
        except RuntimeError:
            ctx.count("empty grids refused")
        else:
            ctx.check(False, "a grid without plots was made")
    lay = PlotLayout(cols, n, **kw)
    fig = lay.get_fig()
    width = min(cols, n)
    rows = -(-n // width)
    ctx.check((lay.rows, lay.cols) == (rows, width), "%d plots, %d per line: %d rows of %d, expected %d of %d" % (n, cols, lay.rows, lay.cols, rows, width))
    cells = fig.get_axes()
    ctx.check(len(cells) == rows * width, "the figure has %d axes, expected %d" % (len(cells), rows * width))
    order = list(range(n))
    rng.shuffle(order)
    got = {}
    for i in order:
        ax = lay.get_axis(i)
        ctx.check(ax in cells, "the axis of plot %d is not in the figure" % i)
        s = ax.get_subplotspec()
        g = s.get_gridspec()
        at = (s.rowspan.start, s.rowspan.stop, s.colspan.start, s.colspan.stop, g.nrows, g.ncols)
        ctx.check(at == (i // width, i // width + 1, i % width, i % width + 1, rows, width), "plot %d of %d, %d per line, is in cell %r" % (i, n, cols, at))
        ctx.check(ax not in got.values(), "plot %d has the axis of another plot" % i)
        ctx.check(lay.get_axis(i) is ax, "plot %d has another axis the second time" % i)
        got[i] = ax
        ctx.count("axes located")
    stop = n if rng.random() < .7 else rng.randint(1, n)
    if stop < n:
        ctx.count("early finishes")
    lay.finish(stop)
    left = fig.get_axes()
    ctx.check(left == [got[i] for i in range(stop)], "after finishing at %d of %d plots, %d per line, %d axes are left: %r" % (stop, n, cols, len(left), [c for c, a in got.items() if a in left]))
    if len(left) < rows * width:
        ctx.count("axes removed")
    if "width" in kw:
        # one plot, or one plot per line, is drawn larger
        w, l = (int(kw["width"] * 2.5), int(kw["length"] * 1.25)) if width == 1 else (kw["width"], kw["length"])
        size = tuple(fig.get_size_inches())
        ctx.check(size == (w * width, l * rows), "the figure is %r, expected %r" % (size, (w * width, l * rows)))
    if kw.get("title"):
        ctx.check(fig._suptitle is not None and fig._suptitle.get_text() == kw["title"], "the title is missing")
    ctx.count("grids")
    ctx.count("one plot" if n == 1 else "one row" if rows == 1 else "one column" if width == 1 else "rows and columns")
    ctx.seen("grid", n, cols, stop)
    ctx.sample(dict(plots=n, per_line=cols, finished_at=stop))


def colours(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 5, 8, 13, 40])
    rgb = [rng.choice([tuple, list])(rng.choice([0, 255, rng.randint(0, 255)]) for _ in range(3)) for _ in range(n)]
    ctx.keep("colours", repr(rgb))
    m = ColorMap.rgb_cmap(rgb)
    for i in rng.sample(range(n), n):
        want = [v / 255. for v in rgb[i]]
        have = m.cmap(i)
        ctx.check(len(have) == 4 and max(abs(a - b) for a, b in zip(have, want)) < 1e-9 and have[3] == 1, "colour %d of %d is %r, expected %r" % (i, n, have, want))
        ctx.count("RGB colours")
        if True:
            # what follows the last colour is the last colour
            have = m.cmap_inv(i)
            want = [v / 255. for v in rgb[min(n - i, n - 1)]]
            ctx.check(max(abs(a - b) for a, b in zip(have, want)) < 1e-9, "inverse colour %d of %d is %r, expected %r" % (i, n, have, want))
            ctx.count("inverse colours")
    page = to_dygraph_colors(rgb)
    ctx.check(json.loads(page) == ["rgb(%d, %d, %d)" % tuple(c) for c in rgb], "the colours %r are %r in the page" % (rgb, page))
    ctx.count("page colours")
    k = rng.randint(1, 60)
    m = ColorMap(k, cmap="viridis")
    ctx.check([m.cmap_inv(i) for i in range(k + 1)] == [m.cmap(k - i) for i in range(k + 1)], "the inverse of a map of %d colours does not run from the last to the first" % k)
    ctx.check(m.cmap_inv(0) != m.cmap_inv(k), "a map of %d colours ends as it begins" % k)
    m = ColorMap(k)
    have = [m.cmap(i) for i in range(k)]
    ctx.check(len(set(have)) == k, "a map of %d colours has only %d" % (k, len(set(have))))
    ctx.check([m.cmap_inv(k - i) for i in range(k)] == have, "the inverse of a map of %d colours is another one" % k)
    ctx.count("gradient colours", k)
    ctx.seen("colours", n, k)
