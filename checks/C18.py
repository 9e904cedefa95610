"""Alignment, resampling and correlation against a model over plain lists."""
import math
import numpy as np
import pandas as pd
import trappy
from trappy.stats.Topology import Topology
from trappy.stats.Trigger import Trigger
from trappy.stats.Aggregator import MultiTriggerAggregator
from trappy.stats.Correlator import Correlator, align, shift_series
from trappy.stats.Indexer import get_unified_indexer
from trappy.stats import StatConf

CASES = {"quick": 800, "thorough": 40000}
RULE = ("A case is two bare traces with pulses on the CPUs of a random topology - unrelated, identical, scaled, shifted by whole steps, starting at different times, empty - and a "
        "correlator over them; the series handed to the correlation function are recorded and compared sample by sample with a model of resampling and alignment, as are "
        "results, totals, repeated calls and plotted lines; align and shift_series are also called directly with random series. Distinct by (relation, shift, levels, sizes).")
ASSUMPTIONS = ["samples do not fall on points of the uniform grid other than its first (rounding of the grid decides there)", "values are multiples of 1/4 so that sums are exact",
               "when front and back alignment score the same within 1e-9 the case is skipped"]
REQUIRED = ["correlations", "series compared", "identical", "scaled", "shifted", "unrelated", "different starts", "empty signal", "repeated", "direct align", "direct shift", "default correlation", "plots",
            "aggregation arguments", "second starts first", "back alignments", "front alignments", "not resampled", "unified index"]
D = StatConf.DELTA_DEFAULT


def pearson(x, y):
    p = [(a, b) for a, b in zip(x, y) if not (math.isnan(a) or math.isnan(b))]
    if len(p) < 2:
        return float("nan")
    xs, ys = np.array([a for a, _ in p]), np.array([b for _, b in p])
    xs, ys = xs - xs.mean(), ys - ys.mean()
    v = (xs * xs).sum() * (ys * ys).sum()
    return float((xs * ys).sum() / math.sqrt(v)) if v > 0 else float("nan")


def near(a, b):
    return (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-7


def mshift(x, y, s):
    nan = float("nan")
    n = len(x)
    if s > 0:
        y = ([nan] * s + y)[:n]
    elif s < 0:
        x = ([nan] * -s + x)[:n]
    return x, y


def nz(x):
    return [i for i, v in enumerate(x) if v != 0 and not math.isnan(v)]


def malign(x, y, mode):
    a, b = nz(x), nz(y)
    if not a or not b:
        return 0
    return a[0] - b[0] if mode == "front" else a[-1] - b[-1]


def direct(ctx):
    rng = ctx.rng
    n = rng.choice([1, 5, 20])
    def ser():
        x = [rng.choice([0, 0, 0, 1, -2, 0.5]) for _ in range(n)]
        if rng.random() < .3:
            x = [float("nan")] * rng.randint(0, n) + x
            x = x[:n]
        return [float(v) for v in x]
    x, y = ser(), ser()
    idx = [i * D for i in range(n)]
    sx, sy = pd.Series(x, index=idx), pd.Series(y, index=idx)
    mode = rng.choice(["front", "back"])
    gx, gy, s = align(sx, sy, mode=mode)
    want = malign(x, y, mode)
    wx, wy = mshift(x, y, want)
    ctx.check(s == want and eq(gx.tolist(), wx) and eq(gy.tolist(), wy), "align(%r, %r, %s) gives shift %r, %r, %r; expected shift %d, %r, %r" % (x, y, mode, s, gx.tolist(), gy.tolist(), want, wx, wy))
    ctx.check(eq(sx.tolist(), x) and eq(sy.tolist(), y), "align changed its arguments")
    ctx.count("direct align")
    k = rng.randint(-n - 1, n + 1)
    gx, gy = shift_series(sx, sy, k)
    wx, wy = mshift(x, y, max(-n, min(n, k)))
    ctx.check(eq(gx.tolist(), wx) and eq(gy.tolist(), wy), "shift_series(%r, %r, %d) gives %r, %r" % (x, y, k, gx.tolist(), gy.tolist()))
    ctx.count("direct shift")


def eq(a, b):
    return len(a) == len(b) and all(x == y or (math.isnan(x) and math.isnan(y)) for x, y in zip(a, b))


def pulses(rng, cpus, start, steps, n):
    """Samples (step, cpu, value): pulses that begin after and end before the ends."""
    pts = []
    for _ in range(n):
        pts.append((rng.randrange(2, max(3, steps - 2)), rng.choice(cpus), rng.choice([1, 2, -1, 0.5, 0.25, 3])))
    return pts


def mk_trace(name, start, pts, steps, off):
    """pts: (step, cpu, value); samples lie off the grid except the first one."""
    rows = {}
    for k, c, v in pts:
        t = start + k * D + off
        while t in rows:
            t += D / 200
        rows[t] = (c, v)
    rows[start] = (99, 0.0)
    rows[start + steps * D + off] = (99, 0.0)
    times = sorted(rows)
    df = pd.DataFrame({"cpu": [rows[t][0] for t in times], "val": [rows[t][1] for t in times]}, index=pd.Index(times, name="Time"))
    tr = trappy.BareTrace(name=name)
    tr.add_parsed_event("pulse", df)
    return tr, [(t,) + rows[t] for t in times]


def case(ctx):
    rng = ctx.rng
    direct(ctx)
    if ctx.i % 2 == 0:
        return direct(ctx)
    cpus = list(range(rng.choice([1, 2, 4])))
    steps = rng.choice([10, 40, 150])
    start = rng.choice([0.0, 0.5, 3.25])
    off = D * 0.4
    a = pulses(rng, cpus, start, steps, rng.choice([2, 5, 12]))
    rel = rng.choice(["identical", "scaled", "shifted", "unrelated", "different starts", "empty signal"])
    start2, b, steps2 = start, list(a), steps
    if rel == "scaled":
        b = [(k, c, v * 2) for k, c, v in a]
    elif rel == "shifted":
        s = rng.choice([1, 3, 7])
        b = [(k + s, c, v) for k, c, v in a]
        if rng.random() < .5:
            a, b = b, a
        steps = steps2 = steps + 10
    elif rel == "unrelated":
        b = pulses(rng, cpus, start, steps, rng.choice([1, 4, 9]))
    elif rel == "different starts":
        start2 = start + (rng.choice([2, 5, 9]) + .25) * D
        b = pulses(rng, cpus, start2, steps, rng.choice([1, 4, 9]))
    elif rel == "empty signal":
        b = []
    ctx.count(rel)
    offs = [off, off]
    if rel == "different starts":
        offs[1] = D * .5
        steps2 = max(3, steps + rng.choice([-12, -6, -3, 0, 0, 4]))
        b = [(min(k, steps2 - 1), c, v) for k, c, v in b]
        if rng.random() < .5:
            # the first starts later (and may end later or earlier)
            (a, start, steps), (b, start2, steps2) = (b, start2, steps2), (a, start, steps)
            offs.reverse()
            ctx.count("second starts first")
    t1, r1 = mk_trace("a", start, a, steps, offs[0])
    t2, r2 = mk_trace("b", start2, b, steps2, offs[1])
    for t in (t1, t2):
        ctx.keep("table " + t.name, t.pulse.data_frame.to_string())
    clusters, i = [], 0
    while i < len(cpus):
        k = rng.choice([1, 2])
        clusters.append(cpus[i:i + k])
        i += k
    topo = Topology(clusters=clusters)
    fn = rng.choice([None, "cumsum", "gain", None])

    def gain(series, gain=1, **kw):
        return series * gain
    func = {None: None, "cumsum": lambda s: s.cumsum(), "gain": gain}[fn]
    kw = {}
    g = 1
    if fn == "gain":
        g = rng.choice([2, -1])
        kw["gain"] = g
        ctx.count("aggregation arguments")
    aggs = [MultiTriggerAggregator([Trigger(t, t.pulse, {}, "val", "cpu")], topo, aggfunc=func) for t in (t1, t2)]
    calls = []
    use_spy = rng.random() < .7

    def spy(x, y):
        calls.append((x.copy(), y.copy()))
        return x.corr(y)
    if use_spy:
        kw["corrfunc"] = spy
    else:
        ctx.count("default correlation")
    # model
    lo, hi = min(start, start2), max(r1[-1][0], r2[-1][0])
    n = int(math.ceil((hi - lo) / D - 1e-9))
    grid = [lo + k * D for k in range(n)]

    def node(rows, c):
        out = []
        for t, cc, v in rows:
            out.append((t, v if cc == c else 0.0))
        if fn == "cumsum":
            s, o = 0.0, []
            for t, v in out:
                s += v
                o.append((t, s))
            out = o
        return [(t, v * g) for t, v in out]

    def resample(pts):
        out, j, last = [], 0, float("nan")
        for x in grid:
            while j < len(pts) and pts[j][0] <= x + 1e-9:
                last = pts[j][1]
                j += 1
            out.append(last)
        return out

    def group(rows, cs):
        ns = [node(rows, c) for c in cs]
        return [(ns[0][k][0], sum(m[k][1] for m in ns)) for k in range(len(ns[0]))]
    gx, gy = resample(group(r1, cpus)), resample(group(r2, cpus))
    fs, bs = malign(gx, gy, "front"), malign(gx, gy, "back")
    fc, bc = pearson(*mshift(gx, gy, fs)), pearson(*mshift(gx, gy, bs))
    fc, bc = (0 if math.isnan(fc) else fc), (0 if math.isnan(bc) else bc)
    if abs(fc - bc) < 1e-9 and fs != bs:
        return
    shift = fs if fc >= bc else bs
    if fs != bs:
        ctx.count("front alignments" if shift == fs else "back alignments")
    corr = Correlator(aggs[0], aggs[1], **kw)
    uni = get_unified_indexer([aggs[0].indexer, aggs[1].indexer])
    ctx.check([float(x) for x in uni.index] == sorted({t for t, _, _ in r1} | {t for t, _, _ in r2}), "the unified index is %r" % list(uni.index))
    un = uni.get_uniform()
    ctx.check(len(un) == n and all(abs(x - y) < 1e-9 for x, y in zip(un, grid)), "the uniform index has %d points %r..., expected %d %r..." % (len(un), list(un[:3]), n, grid[:3]))
    ctx.count("unified index")
    levels = {"all": [cpus], "cluster": clusters, "cpu": [list(x) for x in topo.get_level("cpu")]}
    seq = []
    for _ in range(rng.choice([1, 2, 4])):
        level = rng.choice(sorted(levels))
        seq.append(level)
        resam = True
        if shift == 0 and rel in ("identical", "scaled", "empty signal") and rng.random() < .3:
            resam = False
            ctx.count("not resampled")
        del calls[:]
        out, total = corr.correlate(level) if resam else corr.correlate(level, resample=False)
        want, weights = [], []
        for k, cs in enumerate(levels[level]):
            px, py = group(r1, cs), group(r2, cs)
            if resam:
                x, y = mshift(resample(px), resample(py), shift)
            else:
                d = dict(py)
                x, y = [v for t, v in px if t in d], [d[t] for t, _ in px if t in d]
            want.append(pearson(x, y))
            if not resam:
                x, y = [v for _, v in px], [v for _, v in py]
            weights.append(len(nz(x)) + len(nz(y)))
            if use_spy:
                ctx.check(k < len(calls), "correlate(%s) called the correlation function %d times for %d groups" % (level, len(calls), len(levels[level])))
                cx, cy = calls[k]
                for s, w, nm in ((cx, x, "first"), (cy, y, "second")):
                    got = s.tolist()
                    bad = [i for i in range(min(len(got), len(w))) if not (got[i] == w[i] or (math.isnan(got[i]) and math.isnan(w[i])))]
                    ctx.check(len(got) == len(w) and not bad, "correlate(%s), group %s: the %s series has %d samples, expected %d; first differences at %s" % (
                        level, cs, nm, len(got), len(w), [(i, got[i], w[i]) for i in bad[:4]]), shift=shift, relation=rel)
                    ctx.count("series compared")
        ctx.check(len(out) == len(want) and all(near(float(p), q) for p, q in zip(out, want)), "correlate(%s) gives %r, expected %r" % (level, out, want), relation=rel, shift=shift)
        tw = sum(weights)
        exp = sum(w * c for w, c in zip(weights, want) if not math.isnan(c)) / tw if tw else 0
        ctx.check(near(float(total), exp), "correlate(%s): the total is %r, expected %r of %r weighted by %r" % (level, total, exp, want, weights))
        if rel in ("identical", "scaled"):
            ctx.check(all(math.isnan(c) or abs(c - 1) < 1e-7 for c in out), "%s signals correlate to %r" % (rel, out))
        if rel == "shifted" and level == "all" and fn is None and not math.isnan(out[0]):
            ctx.check(abs(out[0] - 1) < 1e-7, "signals shifted by whole steps correlate to %r" % out)
        ctx.count("correlations")
        if len(seq) > 1:
            ctx.count("repeated")
    if rng.random() < .25:
        plot(ctx, corr, levels, group, r1, r2, resample, shift)
    ctx.seen(rel, shift, tuple(seq), len(cpus), n, fn)
    ctx.sample(dict(relation=rel, shift=shift, levels=seq, grid=n))


def plot(ctx, corr, levels, group, r1, r2, resample, shift):
    import matplotlib.pyplot as plt
    rng = ctx.rng
    level = rng.choice(sorted(levels))
    plt.close("all")
    corr.plot(level, per_line=rng.choice([1, 2, 3]))
    axes = [a for a in plt.gcf().axes if a.get_lines()]
    want = [mshift(resample(group(r1, cs)), resample(group(r2, cs)), shift) for cs in levels[level]]
    got = [[[float(v) for v in l.get_ydata()] for l in a.get_lines()] for a in axes]
    plt.close("all")
    ctx.check(len(got) == len(want) and all(len(g) == 2 and eq(g[0], w[0]) and eq(g[1], w[1]) for g, w in zip(got, want)), "plot(%s) does not draw the two series of each group" % level,
              drawn=repr([[len(l) for l in g] for g in got]))
    ctx.count("plots")
