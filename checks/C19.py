"""Which samples a plot selects: constraints against a plain row-by-row selection."""
from trappy.plotter import AttrConf
from trappy.plotter.Constraint import Constraint, ConstraintManager
from vlib.frames import fingerprint
from vlib.plots import Gen

CASES = {"quick": 1600, "thorough": 120000}
RULE = ("A case is 1-3 tables or traces with two events each (1-30 rows, times distinct or repeated, whole or fractional, columns and pivots sometimes absent), 1-3 columns with their "
        "events, given once or as lists, zipped or permuted, a pivot of numbers, digits, hexadecimal numbers or text, or none, filters on columns that are there, absent, or the pivot itself, "
        "and a window before, after, inside, around or exactly on samples. Distinct by (shape, pivot kind, filters, window position, number of samples of each pivot).")
ASSUMPTIONS = ["filters hold lists of values", "pivots of one call are all of one type and none is missing", "times are ordered"]
REQUIRED = ["constraints", "series compared", "samples compared", "zipped", "permuted", "windows", "windows without samples before", "windows without samples after", "windows on a sample",
            "filters", "filters on the pivot", "pivot absent", "column absent", "numeric pivots", "hexadecimal pivots", "text pivots", "lists of unequal length refused", "several pivots"]


def case(ctx):
    rng = ctx.rng
    g = Gen(rng, AttrConf.PIVOT_VAL)
    if rng.random() < .5:
        ts = sorted({float(t) for tabs in g.tables for d in tabs.values() for t in d.index})
        whole = all(isinstance(t, int) for tabs in g.tables for d in tabs.values() for t in d.index.tolist())
        pts = [rng.choice(ts), rng.choice(ts) + rng.choice([.05, 5e-7, 1]), ts[0] - 1, ts[-1] + 1, ts[0], ts[-1], (ts[0] + ts[-1]) / 2, 0]
        if whole:
            pts = [int(p) for p in pts]
        g.window = tuple(sorted(rng.sample(pts, 2)))
        if g.window[0] == g.window[1]:
            g.window = (g.window[0], g.window[0] + 1)
    ctx.keep("sources", g.text())
    ctx.keep("arguments", repr(g.describe()))
    before = [fingerprint(d) for tabs in g.tables for d in tabs.values()]
    traces, templates, column = g.args()
    fl = {k: list(v) for k, v in g.filters.items()}
    piv = AttrConf.PIVOT if g.pivot is None else g.pivot
    kw = {}
    if g.window is not None or rng.random() < .3:
        kw["window"] = g.window
    if g.permute or rng.random() < .3:
        kw["zip_constraints"] = not g.permute
    mgr = ConstraintManager(traces, column, templates, piv, fl, **kw)
    cons = g.constraints()
    got = list(mgr)
    ctx.check(len(got) == len(cons) == len(mgr), "%d constraints, expected %d" % (len(got), len(cons)))
    ctx.count("permuted" if g.permute else "zipped")
    labels = mgr.constraint_labels()
    for c, e, lab in zip(got, cons, labels):
        compare(ctx, g, c, e)
        ctx.check(str(c) == e.title == lab, "the constraint is labelled %r (%r), expected %r" % (str(c), lab, e.title))
        ctx.check(c.trace_index == e.index, "the constraint is for source %r, expected %d" % (c.trace_index, e.index))
        ctx.check(c.get_data_name() == e.label, "the data is called %r, expected %r" % (c.get_data_name(), e.label))
    pivots(ctx, g, mgr, cons)
    # one constraint by itself
    e = rng.choice(cons)
    src = g.sources[e.src]
    c = Constraint(src, piv, e.column, None if e.event is None else src.class_definitions[e.event], e.index, fl, g.window)
    compare(ctx, g, c, e)
    ctx.check(fl == g.filters and before == [fingerprint(d) for tabs in g.tables for d in tabs.values()], "the data or filters given were changed")
    unequal(ctx, g, piv)
    if g.window is not None:
        ctx.count("windows")
        for e in cons:
            ts = g.tables[e.src][e.event].index.tolist()
            if not [t for t in ts if t <= g.window[0]]:
                ctx.count("windows without samples before")
            if not [t for t in ts if t >= g.window[1]]:
                ctx.count("windows without samples after")
            if set(ts) & set(g.window):
                ctx.count("windows on a sample")
    if g.filters:
        ctx.count("filters")
        if g.pivot in g.filters:
            ctx.count("filters on the pivot")
    ctx.seen(g.nsrc, g.ncol, g.frames, g.permute, g.pivot and g.kinds[g.pivot], tuple(sorted((k, len(v)) for k, v in g.filters.items())),
             g.window is not None, tuple(tuple(sorted(len(v) for v in e.series.values())) for e in cons))
    ctx.sample(g.describe())


def compare(ctx, g, c, e):
    ctx.count("constraints")
    df = g.tables[e.src][e.event]
    what = "%s for pivot %r" % (e.title, g.pivot)
    ctx.check(set(c.result) == set(e.series) and len(c.result) == len(e.series), "%s: pivot values %r, expected %r" % (what, list(c.result), list(e.series)))
    for p, want in e.series.items():
        s = c.result[p]
        have = list(zip(s.index.tolist(), s.tolist()))
        ctx.check(have == want, "%s: the samples of %r are %r, expected %r" % (what, p, have[:20], want[:20]))
        ctx.count("series compared")
        ctx.count("samples compared", len(want))
    if len(e.series) > 1:
        ctx.count("several pivots")
    if g.pivot and g.pivot not in df.columns:
        ctx.count("pivot absent")
    if e.column not in df.columns:
        ctx.count("column absent")


def pivots(ctx, g, mgr, cons):
    want = g.pivots(cons)
    vals, n = mgr.generate_pivots()
    vals = list(vals)
    ctx.check(vals == want and n == len(want), "the pivot values are %r (%r), expected %r" % (vals, n, want))
    pairs, n = mgr.generate_pivots(permute=True)
    pairs = list(pairs)
    exp = [(t, p) for t in range(g.nsrc) for p in want]
    ctx.check(pairs == exp and n == len(exp), "the permuted pivot values are %r (%r), expected %r" % (pairs, n, exp))
    if g.pivot and len(want) > 1:
        k = g.kinds[g.pivot]
        ctx.count({"int": "numeric pivots", "digits": "numeric pivots", "hex": "hexadecimal pivots", "text": "text pivots"}[k])


def unequal(ctx, g, piv):
    """Lists that cannot be matched are refused."""
    rng = ctx.rng
    if rng.random() > .15:
        return
    n, m = rng.sample([2, 3, 4], 2)
    src = [g.sources[0]] * n
    cols = ["x"] * m
    tms = None if g.frames else [g.cls("ev_a")] * rng.choice([n, m, 2])
    if tms is None:
        # a table needs no event: one stands for all
        tms = [None] * rng.choice([n, m])
    try:
        mgr = ConstraintManager(src, cols, tms, piv, {}, zip_constraints=rng.random() < .5)
    except RuntimeError:
        ctx.count("lists of unequal length refused")
    else:
        ctx.check(False, "%d sources, %d columns and %d events were accepted as %d constraints" % (n, m, len(tms), len(mgr)))
