"""Interactive plots of a notebook while its cells are run, run again and cleared, and its user zooms, zooms out and resizes the window."""
import json, subprocess
import os
import pandas as pd
from trappy.plotter import AttrConf
from trappy.plotter.ILinePlot import ILinePlot
from checks.C21 import script, eq, num
from vlib.core import Inconclusive
from vlib.pages import Dom, shown

CASES = {"quick": 400, "thorough": 12000}
RULE = ("A case is a notebook of 1-4 cells, each with a figure of 1-4 plots in some group, zoom shared or not, limits or not, 1-4 plots in a line, that are run, run again with other data, options and numbers of plots, and cleared, in any order, "
        "while the user zooms in a plot, zooms out of it and resizes the window, 2-14 steps. Distinct by the steps and the shape of their figures.")
ASSUMPTIONS = ["all figures of a group share their zoom or none does", "the plot library and its synchronizer do with the ranges they are given what their documentation says", "a cell's earlier output is gone when its new output appears"]
REQUIRED = ["notebooks", "steps compared", "plots compared", "cells run again", "cells cleared", "zooms", "zooms shared", "zooms not shared", "zooms out", "resizes", "figures that join a group", "groups left", "joined while zoomed",
            "figures that joined plots that are gone", "values zoomed"]
RUNNER = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vlib", "notebook.js")


class Plot(object):
    def __init__(self, div, cell, rows, x, y, group, sync, per_line):
        self.div, self.cell, self.rows, self.x, self.y, self.group, self.sync, self.per_line = div, cell, rows, x, y, group, sync, per_line
        self.width = None


def figure(ctx, cell, sync_of, like):
    rng = ctx.rng
    k = rng.randint(1, 4)
    t0 = rng.choice([0.0, 3.5, 10.25])
    n = k * rng.choice([1, 2, 5])
    rows = [(t0 + .5 * i, i % k, rng.choice([rng.randrange(9), rng.randrange(-50, 50)])) for i in range(n)]
    kw = dict(column="x", pivot="p")
    g = rng.choice([None, "A", "A", "B"] + [q for q in like if q in sync_of] * 3)
    if g is not None:
        kw["group"] = g
    sync = sync_of[g] if g else rng.random() < .6
    if sync or rng.random() < .5:
        kw["sync_zoom"] = sync
    if rng.random() < .5:
        kw["per_line"] = rng.choice([1, 2, 3, 4])
    if rng.random() < .2:
        kw["ylim"] = (-3, rng.choice([5, 200]))
    if rng.random() < .2:
        kw["xlim"] = (t0 - .25, t0 + .5 * n)
    df = pd.DataFrame({"p": [r[1] for r in rows], "x": [r[2] for r in rows]}, index=pd.Index([r[0] for r in rows], name="Time"))
    with shown() as out:
        ILinePlot(df, **kw).view(test=True)
    dom = Dom(out[0])
    divs = [i for i in dom.ids if dom.classes[i] == "ilineplot"][:k]
    plots = []
    for piv, div in enumerate(divs):
        mine = [[r[0], r[2]] for r in rows if r[1] == piv]
        x = list(kw.get("xlim", (mine[0][0], mine[-1][0])))
        y = list(kw.get("ylim", (min(r[1] for r in mine), max(r[1] for r in mine))))
        plots.append(Plot(div, cell, mine, x, y, g or divs[0], sync, min(kw.get("per_line", AttrConf.PER_LINE), k)))
    return dom, plots, kw


def case(ctx):
    rng = ctx.rng
    sync_of = {"A": rng.random() < .7, "B": rng.random() < .4}
    cells = ["c%d" % i for i in range(rng.randint(1, 4))]
    widths = {c: rng.choice([900, 905, 640]) for c in cells}
    live, steps, want, log = [], [], [], []
    zoomed = set()
    joined = set()
    for _ in range(rng.randint(2, 14)):
        r = rng.random()
        if r < .45 or not live:
            c = rng.choice(cells)
            gone = [p for p in live if p.cell == c]
            live = [p for p in live if p.cell != c]
            if gone:
                ctx.count("cells run again")
            dom, plots, kw = figure(ctx, c, sync_of, [q.group for q in live if q.div in zoomed])
            if any(p.group == plots[0].group for p in gone):
                ctx.count("figures that joined plots that are gone")
            elif gone:
                ctx.count("groups left")
            for p in plots:
                # drawn one after another: the group then shows what any of its plots showed
                live.append(p)
                p.width = widths[c]
                group = [q for q in live if q.group == p.group]
                if len(group) > 1:
                    x = [min(q.x[0] for q in group), max(q.x[1] for q in group)]
                    y = [min(q.y[0] for q in group), max(q.y[1] for q in group)]
                    for q in group:
                        q.x, q.y = list(x), list(y)
            if any(q.cell != c and q.group == plots[0].group for q in live):
                ctx.count("figures that join a group")
                if any(q.div in zoomed for q in live if q.group == plots[0].group):
                    ctx.count("joined while zoomed")
                    joined.update(q.div for q in live if q.group == plots[0].group)
            steps.append(dict(op="show", cell=c, width=widths[c], ids=dom.ids, scripts=dom.scripts))
            log.append(("show", c, kw, len(plots), [len(p.rows) for p in plots]))
        elif r < .53:
            c = rng.choice(live).cell
            live = [p for p in live if p.cell != c]
            steps.append(dict(op="clear", cell=c))
            log.append(("clear", c))
            ctx.count("cells cleared")
        elif r < .78:
            p = rng.choice(live)
            a, b = sorted(rng.sample(range(9), 2))
            w = p.x[1] - p.x[0] or 1.0
            x = [p.x[0] + w * a / 8, p.x[0] + w * b / 8]
            y = None
            if rng.random() < .4:
                y = [p.y[0] + 1, p.y[0] + 2]
                ctx.count("values zoomed")
            group = [q for q in live if q.group == p.group] if p.sync else [p]
            for q in group:
                q.x = list(x)
                zoomed.add(q.div)
                if y or len(group) > 1:
                    q.y = list(y or p.y)
            if y:
                p.y = list(y)
            steps.append(dict(op="zoom", div=p.div, x=x, y=y))
            log.append(("zoom", p.cell, p.div, x, y))
            ctx.count("zooms")
            others = [q for q in live if q.group == p.group and q is not p]
            if others:
                ctx.count("zooms shared" if p.sync else "zooms not shared")
        elif r < .9:
            p = rng.choice([q for q in live if q.div in joined] or live)
            joined.discard(p.div)
            group = [q for q in live if q.group == p.group] if p.sync else [p]
            for q in group:
                q.x = None
                zoomed.discard(q.div)
            steps.append(dict(op="unzoom", div=p.div))
            log.append(("unzoom", p.cell, p.div))
            want.append([(q.div, q.cell, q.x and list(q.x), list(q.y), q.rows, q.per_line, q.width) for q in live])
            # what it shows then is at least its own samples; the library says what it is
            res = play(ctx, steps)
            now = {g["div"]: g for g in res["steps"][-1]["graphs"]}
            for q in group:
                ctx.check(q.div in now, "a plot of cell %s is gone after zooming out" % q.cell)
                q.x = [num(v) for v in now[q.div]["x"]]
                ctx.check(q.x == [num(v) for v in now[p.div]["x"]], "zoomed out in %s, its group shows %r and %r" % (p.cell, q.x, now[p.div]["x"]))
            ctx.check(p.x[0] <= p.rows[0][0] and p.x[1] >= p.rows[-1][0], "zoomed out, a plot of the times %r to %r shows %r" % (p.rows[0][0], p.rows[-1][0], p.x), log=log)
            want.pop()
            ctx.count("zooms out")
        else:
            widths = {c: rng.choice([300, 900, 1201]) for c in cells}
            for p in live:
                p.width = widths[p.cell]
            steps.append(dict(op="resize", widths=widths))
            log.append(("resize", widths))
            ctx.count("resizes")
        want.append([(q.div, q.cell, list(q.x), list(q.y), q.rows, q.per_line, q.width) for q in live])
        ctx.keep("steps", "\n".join(map(repr, log)))
    res = play(ctx, steps)
    # a figure's lines may have places for more plots than it has
    used = set(e[0] for exp in want for e in exp)
    errors = [e for e in res["errors"] if "_data is not defined" not in e[1] or any(d in e[1] for d in used)]
    ctx.check(not errors, "scripts fail: %r" % errors[:3])
    for i, (got, exp) in enumerate(zip(res["steps"], want)):
        got = {g["div"]: g for g in got["graphs"]}
        what = "after step %d (%s)" % (i, " ".join(map(str, log[i][:2])))
        ctx.check(sorted(got) == sorted(e[0] for e in exp), "%s there are %d plots, expected %d" % (what, len(got), len(exp)))
        for div, cell, x, y, rows, per_line, width in exp:
            g = got[div]
            ctx.check([num(v) for v in g["x"]] == x, "%s a plot of cell %s shows the times %r, expected %r" % (what, cell, g["x"], x), log=log[:i + 1])
            ctx.check([num(v) for v in g["y"]] == y, "%s a plot of cell %s shows the values %r, expected %r" % (what, cell, g["y"], y), log=log[:i + 1])
            raw = [[num(v) for v in r] for r in g["raw"]]
            ctx.check(eq(raw, rows) or eq(raw[1:-1], rows), "%s the samples of a plot are %r, made with %r" % (what, raw[:9], rows[:9]))
            ctx.check(g["size"] and width / per_line - 3 <= g["size"][0] <= width / per_line and g["size"][1] == AttrConf.HTML_HEIGHT,
                      "%s a plot of cell %s, %d in a line of %d pixels, is %r" % (what, cell, per_line, width, g["size"]))
            ctx.count("plots compared")
        ctx.count("steps compared")
    ctx.count("notebooks")
    ctx.seen(repr([(s["op"], s.get("cell")) for s in steps]), repr([l[3:] for l in log if l[0] == "show"]), repr(sync_of))
    ctx.sample(dict(steps=[s["op"] for s in steps], plots=len(live)))


def play(ctx, steps):
    p = ctx.path("notebook.json")
    with open(p, "w") as f:
        json.dump(dict(sources=[script()], steps=steps), f)
    r = subprocess.run(["node", RUNNER, p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if r.returncode:
        raise Inconclusive("node: %s" % r.stderr.decode("utf-8", "replace")[-600:])
    return json.loads(r.stdout.decode("utf-8"))
