"""Making an index unique: order, values, bounds, and what the caller keeps."""
import math
import numpy as np
import pandas as pd
import trappy
from trappy.utils import handle_duplicate_index
from vlib.frames import fingerprint

CASES = {"quick": 3000, "thorough": 300000}
RULE = ("A case is 3 series or tables (numbers, text, missing values, several types of column, a __line column in any order within equal times) whose index has runs of 1-9 equal "
        "times with gaps from 1 s down to a few units in the last place, at the start, middle and end, under a random maximum. Distinct by (kind, run lengths, gap class, maximum).")
ASSUMPTIONS = ["times are ordered (those of tables with a column __line need not be)", "a gap after a run has room for its duplicates (at least 8 units in the last place for each)", "a column __line comes with an index called Time"]
REQUIRED = ["series", "tables", "runs", "runs at the end", "runs of four and more", "narrow gaps", "without duplicates", "tables with __line", "rows in any order", "whole numbers as index", "reindexed"]


def fp(obj):
    return fingerprint(obj if isinstance(obj, pd.DataFrame) else obj.to_frame("v"))


def case(ctx):
    for _ in range(3):
        one(ctx)


def one(ctx):
    rng = ctx.rng
    whole = rng.random() < .1
    mx = rng.choice([None, 1e-6, 1e-3, 0.25, 1e-9])
    eff = 1e-6 if mx is None else mx
    base = rng.choice([0.0, 1.0, 1234.5, 6550.018611, 1e6])
    if whole:
        base = float(int(base))
    times, runs = [], []
    t = base
    for k in range(rng.choice([1, 2, 5, 12])):
        n = rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 9])
        if rng.random() < .15:
            n = 1
        runs.append(n)
        times += [t] * n
        room = 8 * n * np.spacing(abs(t) + 1)
        gap = rng.choice([1.0, 1e-3, 1e-6, 5e-7, room, room * 3, 2 * eff, eff * n, eff])
        if gap < 1e-6:
            ctx.count("narrow gaps")
        t = t + (max(1, round(gap)) if whole else max(gap, room))
    if runs[-1] > 1 and eff < 8 * np.spacing(times[-1] + 1):
        return
    if rng.random() < .15:
        times = sorted(set(times))
        runs = [1] * len(times)
    n = len(times)
    idx = pd.Index([int(x) for x in times], name="Time") if whole else pd.Index(times, name=rng.choice(["Time", None, "Time"]), dtype=float)
    if whole:
        ctx.count("whole numbers as index")
    kind = rng.choice(["series", "table", "text", "line"])
    if kind == "series":
        data = pd.Series([rng.choice([0, 1, 2.5, float("nan"), i]) for i in range(n)], index=idx, name=rng.choice(["x", None]))
    elif kind == "text":
        data = pd.Series([rng.choice(["a", "b", None, "%d" % i]) for i in range(n)], index=idx)
    else:
        data = pd.DataFrame({"i": list(range(n)), "f": [rng.random() for _ in range(n)], "s": [rng.choice("abc") for _ in range(n)]}, index=idx)
        if kind == "line":
            data.index.name = "Time"
            lines = list(range(n))
            if rng.random() < .5:
                # rows of equal times in another order than in the trace
                k = 0
                for r in runs:
                    part = lines[k:k + r]
                    rng.shuffle(part)
                    lines[k:k + r] = part
                    k += r
            if rng.random() < .2:
                rng.shuffle(lines)
            data["__line"] = lines
            if n > 1 and rng.random() < .4:
                # rows in any order
                data = data.iloc[rng.sample(range(n), n)]
                ctx.count("rows in any order")
            ctx.count("tables with __line")
    ctx.count("series" if isinstance(data, pd.Series) else "tables")
    before = fp(data)
    ctx.keep("data", data.to_string())
    ctx.keep("index", repr(times))
    ctx.keep("max_delta", repr(mx))
    held = data.index
    times_given = [float(x) for x in held]
    got = handle_duplicate_index(data) if mx is None else handle_duplicate_index(data, mx) if rng.random() < .5 else handle_duplicate_index(data, max_delta=mx)
    ctx.check(fp(data) == before and [float(x) for x in held] == times_given, "the data given was changed", after=data.to_string())
    want = data
    if kind == "line":
        order = sorted(range(n), key=lambda i: (times_given[i], data["__line"].iloc[i]))
        want = data.iloc[order]
    w, g = fp(want), fp(got)
    ctx.check(type(got) is type(data) and (w[0], w[4]) == (g[0], g[4]), "the values are not the given ones in order", result=got.to_string())
    ctx.check(w[1] == g[1], "the types of the columns are %r, they were %r" % (g[1], w[1]))
    ctx.check(got.index.name == data.index.name, "the index is called %r, it was %r" % (got.index.name, data.index.name))
    new = [float(x) for x in got.index]
    if all(r == 1 for r in runs):
        ctx.check(new == times and got.index.dtype == data.index.dtype, "an index without duplicates was changed to %r" % new)
        ctx.count("without duplicates")
    bad = [i for i in range(1, n) if not new[i - 1] < new[i]]
    ctx.check(not bad, "the index does not increase at %s: %r" % (bad[:3], [new[i - 1:i + 1] for i in bad[:3]]))
    k = 0
    for j, r in enumerate(runs):
        run = new[k:k + r]
        nxt = times[k + r] if k + r < n else None
        ctx.check(run[0] == times[k], "the first of a run moved from %r to %r" % (times[k], run[0]))
        for i in range(1, r):
            ctx.check(run[i] - times[k] <= i * eff * (1 + 1e-9) + 4 * np.spacing(abs(times[k]) + 1), "duplicate %d of %r moved to %r, more than %d times %r" % (i, times[k], run[i], i, eff))
        ctx.check(nxt is None or run[-1] < nxt, "a duplicate of %r reached the next time %r: %r" % (times[k], nxt, run))
        if r > 1:
            ctx.count("runs")
            if r >= 4:
                ctx.count("runs of four and more")
            if nxt is None:
                ctx.count("runs at the end")
        k += r
    if n:
        u = sorted(set(new) | {new[0] - 1, new[-1] + 1})
        ctx.check(len(got.reindex(u)) == len(u), "the result cannot be put on another index")
        ctx.count("reindexed")
    ctx.seen(kind, tuple(runs), mx, whole, round(math.log10(max(times[-1] - times[0], 1e-12))))
    ctx.sample(dict(kind=kind, runs=runs, max_delta=mx))
