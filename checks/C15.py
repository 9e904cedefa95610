"""Data selected by accessors: pivot, window, filters, names; inspect and ref."""
import re
import numpy as np
import pandas as pd
import trappy
from trappy.stats.grammar import Parser
from vlib import gram, tracegen as tg
from vlib.gram import Agg, Ev, Vec
from checks.C14 import same_value, plain_same

CASES = {"quick": 640, "thorough": 40000}
RULE = ("A case is a trace parsed from generated lines of registered and dynamic events, or tables added to a bare trace, and 3-6 parsers with random window (ends on, between and outside of "
        "sample times, open, empty) and filters (single values, lists, absent values, absent columns, several columns); each accessor is solved under every name of its event, "
        "inspected and referenced through a mask. Distinct by (pivot, window position, filter kind, outcome).")
ASSUMPTIONS = ["windows have a start; filter values are of the type of the column", "times are not negative where no window is given"]
REQUIRED = ["accessors", "by alias", "by class path", "by name", "no data", "inspected", "inspected without data", "references", "window ends on a sample", "open windows", "list filters", "single filters",
            "absent filter columns", "columns of one name of two events", "parsed traces", "added tables"]


def real(ctx):
    """A parsed trace: {name: (Ev, class)}"""
    rng = ctx.rng
    layout = tg.gen_layout(rng)
    names = rng.sample([n for n in tg.PLAIN if n not in ("sched_switch",)], 3) + ["sched_switch"]
    names = names[:rng.choice([2, 3, 4])]
    extra = []
    if rng.random() < .4:
        cls = trappy.register_dynamic_ftrace("VtDyn%d" % ctx.i, "vtdyn:", pivot="node")
        extra.append(cls)
    times = tg.gen_times(rng, rng.choice([2, 10, 30]), fmt="us")
    lines = []
    for t in times:
        if extra and rng.random() < .3:
            r = {"node": rng.randrange(3), "level": rng.randrange(100)}
            lines.append(tg.mk_line(rng, layout, t, "vtdyn", "vtdyn", " ".join("%s=%d" % kv for kv in r.items()), r))
        else:
            lines.append(tg.ev_line(rng, layout, t, rng.choice(names)))
    path = ctx.path("trace.txt")
    ctx.keep("trace", tg.write(path, lines))
    try:
        evs = names + [c.name for c in extra]
        t = trappy.FTrace(path, scope="custom", events=evs, name="t")
    finally:
        for c in extra:
            trappy.unregister_dynamic_ftrace(c)
    out = {}
    for n, cls in t.class_definitions.items():
        df = getattr(t, n).data_frame
        rows = [(float(i), dict(zip(df.columns, r))) for i, r in zip(df.index, df.itertuples(index=False, name=None))]
        out[n] = (Ev(n, rows, getattr(cls, "pivot", None)), cls)
    ctx.count("parsed traces")
    return t, out


def added(ctx):
    rng = ctx.rng
    t = trappy.BareTrace(name="t")
    out = {}
    for n in rng.sample(["alpha", "beta_2", "gamma", "x"], rng.choice([1, 2, 3])):
        k = rng.choice([1, 2, 6, 20])
        times = sorted({round(rng.uniform(0, 5), rng.choice([0, 1, 6])) for _ in range(k)})
        pivot = rng.choice([None, "cpu", "task", "cpu"])
        rows = [(x, {"cpu": rng.randrange(4), "task": rng.choice(["a", "b", "c"]), "val": rng.randrange(100), "load": rng.uniform(-2, 2)}) for x in times]
        df = pd.DataFrame({c: [r[c] for _, r in rows] for c in rows[0][1]}, index=pd.Index(times, name="Time", dtype=float))
        t.add_parsed_event(n, df, pivot=pivot)
        out[n] = (Ev(n, rows, pivot), t.class_definitions[n])
    ctx.count("added tables")
    return t, out


def gen_window(ctx, times):
    rng = ctx.rng
    r = rng.random()
    if r < .3 or not times:
        return None
    pick = lambda: rng.choice(times) if rng.random() < .5 else rng.uniform(min(times) - .5, max(times) + .5)
    a, b = sorted([pick(), pick()])
    if r < .5:
        b = None
        ctx.count("open windows")
    if a in times or b in times:
        ctx.count("window ends on a sample")
    if r > .95:
        a, b = max(times) + 1, max(times) + 2
    return (a, b)


def gen_filters(ctx, evs):
    rng = ctx.rng
    if rng.random() < .35:
        return None
    f = {}
    cols = sorted({c for e, _ in evs.values() if e.rows for c in e.rows[0][1] if not c.startswith("__")}) + ["nosuch"]
    for c in rng.sample(cols, min(len(cols), rng.choice([1, 1, 2]))):
        vals = [r[c] for e, _ in evs.values() for _, r in e.rows if c in r and not gram.missing(r[c])]
        if c == "nosuch":
            ctx.count("absent filter columns")
            f[c] = 1
            continue
        if not vals:
            continue
        if rng.random() < .4:
            f[c] = rng.choice(vals)
            ctx.count("single filters")
        else:
            f[c] = list({rng.choice(vals) for _ in range(rng.choice([1, 2, 3]))}) + ([-77] if rng.random() < .3 and not isinstance(vals[0], str) else [])
            ctx.count("list filters")
    return f or None


def case(ctx):
    rng = ctx.rng
    trace, evs = real(ctx) if rng.random() < .35 else added(ctx)
    times = sorted({t for e, _ in evs.values() for t, _ in e.rows})
    for n, (e, _) in evs.items():
        ctx.keep("table " + n, "pivot %s\n%s" % (e.pivot, getattr(trace, n).data_frame.to_string()))
    absent = []
    if isinstance(trace, trappy.FTrace):
        absent = [c for c in ("trappy.cpu_idle.CpuIdle",) ]
    for k in range(rng.randint(3, 6)):
        kw = {}
        w = gen_window(ctx, times)
        if w is not None:
            kw["window"] = w
        filters = gen_filters(ctx, evs)
        if filters:
            kw["filters"] = filters
        pvars = {"AL_" + n: c for n, (e, c) in evs.items()}
        parser = Parser(trace, pvars=pvars, **kw)
        agg = Agg()
        ctx.keep("parser", repr(kw))
        used = set()
        for j in range(rng.choice([1, 2, 3])):
            n = rng.choice(sorted(evs))
            ev, cls = evs[n]
            cols = sorted(ev.rows[0][1]) if ev.rows else ["val"]
            col = rng.choice(cols)
            names = [(n, "by name"), ("AL_" + n, "by alias")]
            path = "%s.%s" % (cls.__module__, cls.__name__)
            if isinstance(trace, trappy.FTrace) and path.startswith("trappy.") and cls.__module__ not in ("trappy.dynamic", "trappy.bare_trace"):
                names.append((path, "by class path"))
            name, how = rng.choice(names)
            acc = "%s:%s" % (name, col)
            rows = ev.select(w or (0, None), filters)
            inspect(ctx, parser, rng.choice(names)[0], ev, cls, col, rows)
            if not rows:
                try:
                    r = parser.solve(acc)
                    ctx.check(False, "%s: nothing is selected, but solving gives %r" % (acc, r))
                except ValueError as e:
                    ctx.check(n in str(e), "%s: nothing is selected, and the error does not name the event: %s" % (acc, e))
                ctx.count("no data")
                ctx.seen(ev.pivot, None, kind(w, times), kind2(filters), "none")
                continue
            agg.add((n, col), rows, ev.pivot)
            if any(c == col and m != n for m, c in used):
                ctx.count("columns of one name of two events")
            used.add((n, col))
            want = Vec(agg.vector((n, col)))
            for nm, h in names if rng.random() < .3 else [(name, how)]:
                got = parser.solve("%s:%s" % (nm, col))
                same_value(ctx, got, want, "%s:%s" % (nm, col), agg, parser=repr(kw))
                ctx.count(h)
            ctx.count("accessors")
            ctx.seen(ev.pivot, len(want.cols), kind(w, times), kind2(filters), len(rows))
            if rng.random() < .5:
                reference(ctx, parser, agg, acc, want)
    ctx.sample(dict(events={n: (e.pivot, len(e.rows)) for n, (e, _) in evs.items()}, parser=repr(kw)))


def kind(w, times):
    return None if w is None else (w[0] in times, w[1] is None or w[1] in times)


def kind2(f):
    return None if not f else tuple(sorted((c, isinstance(v, list)) for c, v in f.items()))


def inspect(ctx, parser, name, ev, cls, col, rows):
    rng = ctx.rng
    if rng.random() < .3:
        col = "nosuchcolumn"
    got = parser.inspect("%s:%s" % (name, col))
    ctx.check(got["length"] == len(rows), "inspect %s:%s: length %r, selected %d rows" % (name, col, got["length"], len(rows)))
    ctx.check(got["column"] == col and got["class"] is cls, "inspect %s:%s: column %r, class %r" % (name, col, got["column"], got["class"]))
    if ev.rows:
        ctx.check(bool(got["column_present"]) == (col in ev.rows[0][1]), "inspect %s:%s: column_present %r" % (name, col, got["column_present"]))
    else:
        ctx.check(not got["column_present"], "inspect %s:%s: column_present %r of an event without rows" % (name, col, got["column_present"]))
    ctx.check((got["pivot"] or None) == ev.pivot, "inspect %s:%s: pivot %r, expected %r" % (name, col, got["pivot"], ev.pivot))
    if ev.pivot:
        want = sorted({r[ev.pivot] for _, r in rows}, key=str)
        ctx.check(sorted(list(got["pivot_values"]), key=str) == want, "inspect %s:%s: pivot values %r, expected %r" % (name, col, got["pivot_values"], want))
    else:
        ctx.check(got["pivot_values"] is None, "inspect %s:%s: pivot values %r without a pivot" % (name, col, got["pivot_values"]))
    ctx.count("inspected")
    if not rows:
        ctx.count("inspected without data")


def reference(ctx, parser, agg, acc, want):
    """ref(mask): the rows of the aggregated data where the mask is true."""
    rng = ctx.rng
    p = rng.choice(sorted(want.cols, key=str))
    vals = [v for v in want.cols[p] if not gram.missing(v)]
    if not vals or any(isinstance(v, str) for xs in want.cols.values() for v in xs):
        return
    lim = rng.choice(vals)
    mask = parser.solve("%s >= %s" % (acc, "%.6f" % lim if not isinstance(lim, (int, np.integer)) else lim) if lim >= 0 else "%s != 0" % acc)[p]
    sel = [bool(x) for x in mask.tolist()]
    got = parser.ref(mask)
    times = [t for t, s in zip(agg.times, sel) if s]
    ctx.check([float(x) for x in got.index] == times, "ref(%s ...): rows at %s, the mask is true at %s" % (acc, list(got.index), times))
    for (n, col), groups in agg.cols.items():
        for piv, pts in groups.items():
            cands = [got[c].tolist() for c in got.columns if (c[0] == col or c[0].endswith(":" + col)) and c[1] == piv]
            exp = [pts.get(t) for t in times]
            ctx.check(any(len(c) == len(exp) and all(gram.same(a, b) for a, b in zip(c, exp)) for c in cands),
                      "ref(%s ...): no column holds the values of %s:%s for %r" % (acc, n, col, piv), table=got.to_string(), expected=repr(exp))
    ctx.count("references")
