"""Histories of externally parsed events against a model of the trace."""
import re
import numpy as np
import pandas as pd
import trappy
from trappy.stats.grammar import Parser
from vlib import tracegen as tg
from vlib.frames import fingerprint, trace_fingerprint

CASES = {"quick": 500, "thorough": 20000}
RULE = ("A case is a history of 1-8 additions (new names, names in use, names of attributes and methods, with and without pivot, empty and one-row tables, negative and "
        "interleaved times) to a bare trace or a parsed one, with a second trace beside it; after each, names, filters, tables, pivots and duration are compared with a "
        "model; at the end an expression and the plot constraints are evaluated. Distinct by (names and shapes added).")
ASSUMPTIONS = ["tables are ordered by time", "expressions and plots, whose default window starts at 0, are compared on tables without negative times"]
REQUIRED = ["additions", "refusals", "durations compared", "expressions", "filters with a key", "on a parsed trace", "all tables empty", "plotted"]
NAMES = ["pmu", "counters", "pmu_counters", "sched_extra", "power2", "a.b", "x y", "Load", "ev1", "ev2", "thermal_x", "cpu_idle_time", "thermal_temperature", "p.u"]
USED = ["name", "basetime", "endtime", "class_definitions", "get_duration", "get_filters", "trace_classes", "add_parsed_event", "normalized_time"]
KEYS = ["", "pmu", "^p", "sched|power", r"\d", "e.1", "zz", "_", "a.b", "x y", "^counters$", "[", "ev", "L"]


def table(rng, k):
    neg = rng.random() < .2
    n = rng.choice([0, 1, 2, 5, 12])
    t = sorted(set(round(rng.uniform(-3 if neg else 0, 10), rng.choice([1, 6])) for _ in range(n)))
    df = pd.DataFrame({"val": [k * 1000 + i for i in range(len(t))], "cpu": [rng.randrange(3) for _ in t], "txt": [rng.choice("abc") for _ in t]},
                      index=pd.Index(t, name="Time", dtype=float))
    return df


def case(ctx):
    rng = ctx.rng
    if rng.random() < .3:
        layout = tg.gen_layout(rng)
        ev = rng.sample(tg.PLAIN, 2)
        times = tg.gen_times(rng, rng.choice([0, 1, 8]), fmt="us")
        path = ctx.path("trace.txt")
        ctx.keep("trace", tg.write(path, [tg.ev_line(rng, layout, t, rng.choice(ev)) for t in times]))
        mk = lambda: trappy.FTrace(path, scope="custom", events=ev, name="t")
        ctx.count("on a parsed trace")
    else:
        ev = []
        mk = lambda: trappy.BareTrace(name="bare")
    t, other = mk(), mk()
    model = {e: (getattr(t, e).data_frame.copy(), getattr(getattr(t, e), "pivot", None)) for e in ev}
    base = dict(model)
    otherfp = trace_fingerprint(other)
    ops = []
    for step in range(rng.randint(1, 8)):
        r = rng.random()
        name = rng.choice(NAMES)
        if r < .15:
            name = rng.choice(USED)
        elif r < .3 and model:
            name = rng.choice(sorted(model))
        df = table(rng, step)
        pivot = rng.choice([None, None, "cpu", "txt"])
        keep = fingerprint(df)
        ops.append((name, len(df), pivot))
        ctx.keep("operations", "\n".join(map(str, ops)))
        kw = {} if pivot is None and rng.random() < .5 else dict(pivot=pivot)
        before = dict((k, v) for k, v in t.__dict__.items())
        fpb = trace_fingerprint(t)
        if name in model or name in USED:
            try:
                t.add_parsed_event(name, df, **kw)
                ctx.check(False, "the name %r, already in use, was accepted" % name)
            except ValueError:
                pass
            ctx.count("refusals")
            ctx.check(set(t.__dict__) == set(before) and all(t.__dict__[k] is before[k] for k in before) and trace_fingerprint(t) == fpb
                      and sorted(t.get_filters()) == sorted(model), "a refused addition of %r changed the trace" % name)
        else:
            t.add_parsed_event(name, df, **kw)
            model[name] = (df.copy(), pivot)
            ctx.count("additions")
        ctx.check(fingerprint(df) == keep, "the table given was changed")
        state(ctx, t, model)
    ctx.check(trace_fingerprint(other) == otherfp and sorted(other.get_filters()) == sorted(base), "adding to one trace changed another")
    usable = [n for n in model if n not in base and re.match(r"^[A-Za-z0-9_]+$", n) and len(model[n][0]) and model[n][0].index[0] >= 0]
    for n in usable[:2]:
        df, pivot = model[n]
        res = Parser(t).solve(n + ":val")
        got = {}
        for c in res.columns:
            s = res[c].dropna()
            got[c] = list(zip(s.index.tolist(), s.tolist()))
        want = {}
        for tm, row in df.iterrows():
            want.setdefault(row[pivot] if pivot else "NO_PIVOT", []).append((tm, row["val"]))
        # carried forward over the union of the times of all groups
        union = df.index.tolist()
        full = {}
        for v, pts in want.items():
            d, last, full[v] = dict(pts), None, []
            for tm in union:
                last = d.get(tm, last)
                if last is not None:
                    full[v].append((tm, last))
        ctx.check(got == full, "expression %s:val gives %r, the table has %r" % (n, got, full))
        ctx.count("expressions")
        if rng.random() < .5:
            import matplotlib.pyplot as plt
            use = pivot if pivot and rng.random() < .7 else None
            p = trappy.LinePlot(t, signals=[n + ":val"], **({"pivot": use} if use else {}))
            p.view(test=True)
            lines = [l for a in plt.gcf().axes for l in a.get_lines()]
            plt.close("all")
            drawn = sorted(sorted((float(x), float(y)) for x, y in zip(l.get_xdata(), l.get_ydata())) for l in lines)
            exp = want if use else {0: list(zip(df.index.tolist(), df["val"].tolist()))}
            ctx.check(drawn == sorted(sorted((float(a), float(b)) for a, b in v) for v in exp.values()), "plot of %s drew %r, the table has %r" % (n, drawn, want))
            ctx.count("plotted")
    ctx.seen(tuple(ops))
    ctx.sample(ops[:5])


def state(ctx, t, model):
    rng = ctx.rng
    f = t.get_filters()
    ctx.check(sorted(f) == sorted(model), "filters are %s, expected %s" % (sorted(f), sorted(model)))
    ctx.check(sorted(t.class_definitions) == sorted(model), "class_definitions has %s, expected %s" % (sorted(t.class_definitions), sorted(model)))
    for n, (df, pivot) in model.items():
        e = getattr(t, n)
        ctx.check(fingerprint(e.data_frame) == fingerprint(df), "the table of %s is not the one added" % n, table=e.data_frame.to_string(), added=df.to_string())
        ctx.check(getattr(e, "pivot", None) == pivot, "the pivot of %s is %r, given %r" % (n, getattr(e, "pivot", None), pivot))
        ctx.check(e.name == n, "the event %s has the name %r" % (n, e.name))
    dfs = [d for d, _ in model.values() if len(d)]
    want = max(d.index[-1] for d in dfs) - min(d.index[0] for d in dfs) if dfs else 0
    got = t.get_duration()
    ctx.check(got == want, "duration %r, expected %r" % (got, want), tables={n: list(d.index) for n, (d, _) in model.items()})
    ctx.count("durations compared")
    if not dfs:
        ctx.count("all tables empty")
    for key in rng.sample(KEYS, 4):
        try:
            exp = sorted(n for n in model if re.search(key, n))
        except re.error:
            continue
        got = t.get_filters(key)
        ctx.check(sorted(got) == exp, "get_filters(%r) gives %s, expected %s" % (key, got, exp))
        ctx.count("filters with a key")
