"""Loads, frequencies, powers and temperatures of thermal runs, in tables and on plots, against the values the traces were written from."""
import math, os, re
import numpy as np
import pandas as pd
import trappy
from vlib import tracegen as tg
from vlib.frames import trace_fingerprint, is_missing

CASES = {"quick": 130, "thorough": 20000}
RULE = ("A case is 1-3 runs of a platform with 1-4 clusters (contiguous and scattered masks, with and without comma), with or without GPU, 1-3 thermal zones and 1-11 power actors, every kind of "
        "thermal event at random times, some kinds missing from some runs, weights in the sysfs dump of some runs; the tables of each run and the plots of all runs together are compared. "
        "Distinct by (clusters, CPUs, GPU, actors, zones, runs, which events exist, lengths of the series, entry point).")
ASSUMPTIONS = ["every labelled cluster has input and output events, and labels are distinct", "an event of the GPU's output comes with events of its input", "keys of get_pids have no regular expression characters",
               "plots of governor data are asked of runs that have it"]
REQUIRED = ["limits compared", "tables", "cells compared", "unknown masks", "lines compared", "histograms compared", "runs with GPU", "runs without GPU", "several runs", "temperature", "temperature of one zone", "temperature of zone 0",
            "control temperature", "governor's temperature alone", "load", "normalized load", "frequencies", "controller", "input power", "weighted power", "weights of some runs only", "ten and more actors",
            "output power", "whole comparisons", "summaries", "own figures", "task lists", "input and output per actor", "no power data refused", "wrong arguments refused"]


class Run(object):
    def __init__(self, rng, plat, name, dir):
        self.p, self.name, self.dir = plat, name, dir
        self.gpu = plat["gpu"] and rng.random() < .8
        self.gov = rng.random() < .85
        self.thermal = rng.random() < .85 or not self.gov
        self.zones = [z for z in plat["zones"] if rng.random() < .8] or plat["zones"][:1]
        self.weights = [rng.choice([1024, 768, 512, 1, 2048]) for _ in plat["actors"]] if rng.random() < .55 else None
        na = len(plat["actors"])
        ev = []
        lim = rng.choice([3, 60, 60])
        long = rng.random() < .25

        def n():
            return rng.randrange(150, 400) if long and rng.random() < .2 else rng.randrange(1, lim)
        for m, (lab, ncpu) in plat["clusters"].items():
            freqs = [rng.choice([rng.randrange(200, 2300) * 1000, rng.randrange(200000, 2300000)]) for _ in range(rng.choice([1, 4, 9]))]
            for _ in range(n()):
                ev.append(("cpu_in", dict(cpus=m, freq=rng.choice(freqs), load=[rng.choice([0, 100, rng.randrange(101)]) for _ in range(ncpu)], dynamic_power=rng.randrange(5000))))
            for _ in range(n()):
                ev.append(("cpu_out", dict(cpus=m, freq=rng.choice(freqs), cdev_state=rng.randrange(5), power=rng.randrange(5000))))
        if self.gpu:
            for _ in range(n()):
                ev.append(("gpu_in", dict(type="devfreq", freq=rng.choice([rng.randrange(1, 600) * 1000000, rng.randrange(10 ** 6, 6 * 10 ** 8)]), load=rng.randrange(101), dynamic_power=rng.randrange(900), static_power=3)))
            for _ in range(n()):
                ev.append(("gpu_out", dict(type="devfreq", freq=rng.choice([rng.randrange(1, 600) * 1000000, rng.randrange(10 ** 6, 6 * 10 ** 8)]), cdev_state=rng.randrange(5), power=rng.randrange(900))))
        if self.gov:
            for _ in range(n()):
                ev.append(("gov", dict(thermal_zone_id=rng.choice(plat["zones"]), req_power=[rng.randrange(6000) for _ in range(na)], total_req_power=1, granted_power=[rng.randrange(6000) for _ in range(na)],
                                       current_temperature=rng.randrange(20000, 95000), delta_temperature=rng.randrange(-9000, 9000))))
            for _ in range(n()):
                ev.append(("pid", dict(thermal_zone_id=rng.choice(plat["zones"]), err=rng.randrange(-900, 900), err_integral=rng.randrange(-9000, 9000), p=rng.randrange(-99, 99),
                                       i=rng.randrange(-99, 99), d=rng.randrange(-9, 9), output=rng.randrange(5000))))
        if self.thermal:
            for _ in range(n()):
                ev.append(("thermal", dict(thermal_zone="soc", id=rng.choice(self.zones), temp_prev=rng.randrange(20000, 95000), temp=rng.randrange(20000, 95000))))
        rng.shuffle(ev)
        t = rng.choice([5, 6550 * 10 ** 6, 10 ** 11]) + rng.randrange(10 ** 6)
        base = t
        lines, self.rows = [], {}
        for kind, d in ev:
            lines.append("%16s-%-5d [%03d] %d.%06d: %-22s %s" % ("kworker/0:1", 30, 0, t // 10 ** 6, t % 10 ** 6, WORDS[kind] + ":",
                                                           " ".join("%s=%s" % (k, "{%s}" % " ".join(map(str, v)) if isinstance(v, list) else v) for k, v in d.items())))
            self.rows.setdefault(kind, []).append(((t - base) / 1e6, d))
            t += rng.choice([1, 10, 4000, rng.randrange(1, 300000)])
        os.makedirs(dir)
        self.text = "version = 6\ncpus=8\n" + "\n".join(lines) + "\n"
        with open(os.path.join(dir, "trace.txt"), "w") as f:
            f.write(self.text)
        if self.weights or rng.random() < .5:
            sp = os.path.join(dir, "after/sys/devices/virtual/thermal/thermal_zone0")
            os.makedirs(sp)
            for i, w in enumerate(self.weights or []):
                with open(os.path.join(sp, "cdev%d_weight" % i), "w") as f:
                    f.write("%d\n" % w)
            with open(os.path.join(sp, "policy"), "w") as f:
                f.write("power_allocator\n")
        self.scope = rng.choice(["thermal", "all"])

    def load(self):
        self.trace = trappy.FTrace(self.dir, name=self.name, scope=self.scope)
        self.fp = trace_fingerprint(self.trace)
        return self.trace

    def col(self, kind, f, sel=lambda d: True):
        return [(t, f(d)) for t, d in self.rows.get(kind, []) if sel(d)]

    def cluster(self, kind, f):
        return {lab: self.col(kind, f, lambda d, m=m: d["cpus"] == m) for m, (lab, _) in self.p["clusters"].items()}

    # ---- what the helpers must give
    def load_data(self):
        return self.cluster("cpu_in", lambda d: sum(d["load"]))

    def norm_data(self):
        out = {}
        for m, (lab, ncpu) in self.p["clusters"].items():
            top = max(d["freq"] for _, d in self.rows["cpu_in"] if d["cpus"] == m)
            out[lab] = self.col("cpu_in", lambda d: sum(d["load"]) * d["freq"] / (top * ncpu), lambda d, m=m: d["cpus"] == m)
        return out

    def freqs(self, kind):
        return self.cluster(kind, lambda d: d["freq"] / 1000)

    def gpu_freqs(self, kind):
        return self.col(kind, lambda d: d["freq"] / 1e6)

    def gpu_load(self, norm):
        top = max(d["freq"] for _, d in self.rows["gpu_in"]) if norm else 1
        return self.col("gpu_in", lambda d: d["load"] * d["freq"] / top if norm else d["load"])

    def all_freqs(self):
        out = []
        i, o = self.freqs("cpu_in"), self.freqs("cpu_out")
        ts = {t for s in list(i.values()) + list(o.values()) for t, _ in s}
        for lab in i:
            out.append((lab, carried({lab + "_freq_in": i[lab], lab + "_freq_out": o[lab]}, ts)))
        if self.gpu:
            out.append(("GPU", carried({"gpu_freq_in": self.gpu_freqs("gpu_in"), "gpu_freq_out": self.gpu_freqs("gpu_out")})))
        return out

    def temps(self, tz):
        return self.col("thermal", lambda d: d["temp"] / 1000, lambda d: tz is None or d["id"] == tz)

    def gov_temps(self, tz, control):
        return self.col("gov", lambda d: (d["current_temperature"] + (d["delta_temperature"] if control else 0)) / 1000, lambda d: tz is None or d["thermal_zone_id"] == tz)


WORDS = {"cpu_in": "thermal_power_cpu_get_power", "cpu_out": "thermal_power_cpu_limit", "gpu_in": "thermal_power_devfreq_get_power", "gpu_out": "thermal_power_devfreq_limit",
         "gov": "thermal_power_allocator", "pid": "thermal_power_allocator_pid", "thermal": "thermal_temperature"}


def carried(cols, times=()):
    """{column: [(time, value)]} carried forward over all their times (and the times given)."""
    ts = sorted(set(times) | {t for s in cols.values() for t, _ in s})
    out = {}
    for c, s in cols.items():
        cur, k, vals = None, 0, []
        for t in ts:
            while k < len(s) and s[k][0] <= t:
                cur = s[k][1]
                k += 1
            vals.append((t, cur))
        out[c] = vals
    return out


def close(a, b):
    return abs(a - b) <= 1e-9 + 1e-12 * abs(b)


def same_series(ctx, what, ts, vs, want):
    ctx.check(len(ts) == len(want) and all(close(float(t), w[0]) and (is_missing(v) if w[1] is None else not is_missing(v) and close(float(v), w[1])) for t, v, w in zip(ts, vs, want)),
              "%s is %r, expected %r" % (what, list(zip(ts, vs))[:12], want[:12]))
    ctx.count("cells compared", len(want))


def same_frame(ctx, what, df, want):
    ctx.check(sorted(df.columns) == sorted(want), "%s has columns %r, expected %r" % (what, list(df.columns), sorted(want)))
    for c, s in want.items():
        same_series(ctx, "%s, column %s" % (what, c), df.index.tolist(), df[c].tolist(), s)
    ctx.count("tables")


def platform(rng):
    clusters = {}
    labels = rng.sample(["A15", "A7", "A53", "A57", "big", "LITTLE", "Atlas", "cpus 0-3"], 4)
    used, top = 0, rng.choice([32, 32, 40, 70, 128])
    single = rng.random() < .15
    for lab in labels[:rng.choice([1, 2, 2, 2, 3, 4])]:
        ncpu = 1 if single else rng.choice([1, 2, 4, 4, 6, 12])
        bits = [b for b in range(top) if not used >> b & 1]
        if not bits:
            break
        ncpu = min(ncpu, len(bits))
        if rng.random() < .7:
            sel = bits[:ncpu] if rng.random() < .8 else bits[-ncpu:]
        else:
            sel = rng.sample(bits, ncpu)
        m = sum(1 << b for b in sel)
        used |= m
        s = ",".join("%08x" % (m >> k & 0xffffffff) for k in range(96, -1, -32) if m >> k or not k)
        if s.isdigit() and s[0] != "0" or re.match("0b[01]+$", s):
            s = "00000000," + s
        if rng.random() < .2:
            s = "00000000," + s
        # a mask written without leading zeros, when it cannot be taken for a number
        if rng.random() < .1 and re.search("[a-f]", "%x" % m):
            s = s.lstrip("0,") or s
        clusters[s] = (lab, ncpu)
    actors = rng.choice([[c[0] for c in clusters.values()], ["GPU"] + [c[0] for c in clusters.values()], ["a%d" % i for i in range(rng.choice([1, 3, 11, 13]))]])
    return dict(clusters=clusters, gpu=rng.random() < .6, zones=rng.choice([[0], [1], [0, 1], [0, 1, 2], [3, 0]]), actors=actors)


def lines_of(ax):
    return {l.get_label(): l for l in ax.lines}


def same_lines(ctx, what, ax, want, xy=None):
    """The lines of an axis are exactly these series."""
    got = lines_of(ax)
    ctx.check(len(got) == len(ax.lines) and sorted(got) == sorted(want), "%s has the lines %r, expected %r" % (what, [l.get_label() for l in ax.lines], sorted(want)))
    for c, s in want.items():
        x, y = got[c].get_xdata(), got[c].get_ydata()
        y = [None if m else v for v, m in zip(np.ma.getdata(y).tolist(), np.ma.getmaskarray(y).tolist())]
        same_series(ctx, "%s, line %r" % (what, c), list(map(float, x)), y, s)
        ctx.count("lines compared")
    vals = [v for s in want.values() for _, v in s if v is not None]
    if vals:
        lo, hi = ax.get_ylim()
        ctx.check(lo <= min(vals) and max(vals) <= hi, "%s shows %r to %r, its values are from %r to %r" % (what, lo, hi, min(vals), max(vals)))
        ts = [t for s in want.values() for t, v in s if v is not None]
        lo, hi = ax.get_xlim()
        ctx.check(lo <= min(ts) + 1e-9 and max(ts) - 1e-9 <= hi, "%s shows times %r to %r, its times are from %r to %r" % (what, lo, hi, min(ts), max(ts)))


def pre(name, title):
    return name + " - " + title if name else title


def titled(ctx, what, ax, title):
    ctx.check(ax.get_title() == title, "%s has the title %r, expected %r" % (what, ax.get_title(), title))


def figure(ctx, what, n=None):
    """The axes of the next figure, in the order they were laid out."""
    from matplotlib import pyplot as plt
    nums = plt.get_fignums()
    ctx.check(len(nums) > 0, "%s drew no figure" % what)
    fig = plt.figure(nums[0])
    axes = list(fig.axes)
    if n is not None:
        ctx.check(len(axes) == n, "%s has %d axes, expected %d" % (what, len(axes), n))
    plt.close(fig)
    return axes


# ---- the plots of several runs: each reads the figures its function drew

def see_temperature(ctx, runs, tz=None):
    ax, = figure(ctx, "the temperature plot", 1)
    want = {}
    several_named_alike = []
    got = [l for l in ax.lines]
    k = 0
    for r in runs:
        th = r.temps(tz)
        exp = []
        if th:
            exp.append((pre(r.name, "Temperature"), th))
            if r.gov:
                exp.append((pre(r.name, "Control"), r.gov_temps(tz, True)))
                ctx.count("control temperature")
        else:
            exp = [(pre(r.name, "Temperature"), r.gov_temps(tz, False)), ("control temperature", r.gov_temps(tz, True))]
            ctx.count("governor's temperature alone")
        for lab, s in exp:
            what = "the temperature plot's line %d" % k
            ctx.check(k < len(got) and got[k].get_label() == lab, "%s is %r, expected %r" % (what, got[k].get_label() if k < len(got) else None, lab))
            same_series(ctx, "%s (%s)" % (what, lab), [float(x) for x in got[k].get_xdata()], [float(y) for y in got[k].get_ydata()], s)
            ctx.count("lines compared")
            k += 1
    ctx.check(k == len(got), "the temperature plot has %d lines, expected %d" % (len(got), k))
    titled(ctx, "the temperature plot", ax, "Temperature")
    ctx.count("temperature" if tz is None else "temperature of one zone")
    if tz == 0:
        ctx.count("temperature of zone 0")


def grid(ctx, what, runs, rows):
    axes = figure(ctx, what, len(runs) * rows)
    return [axes[i::len(runs)] for i in range(len(runs))]


def load_want(r, norm):
    want = r.norm_data() if norm else r.load_data()
    if r.gpu:
        want = dict(want, GPU=r.gpu_load(norm))
    return carried(want)


def see_load(ctx, runs):
    for r, (a, b) in zip(runs, grid(ctx, "the load plot", runs, 2)):
        same_lines(ctx, "the load of %s" % r.name, a, load_want(r, False))
        titled(ctx, "the load of %s" % r.name, a, pre(r.name, "Utilization"))
        same_lines(ctx, "the normalized load of %s" % r.name, b, load_want(r, True))
        titled(ctx, "the normalized load of %s" % r.name, b, pre(r.name, "Normalized Utilization"))
        ctx.count("load")
        ctx.count("normalized load")


def nfreq(runs):
    return len(runs[0].p["clusters"]) + any(r.gpu for r in runs)


def see_freqs(ctx, runs):
    for r, axes in zip(runs, grid(ctx, "the frequency plot", runs, nfreq(runs))):
        want = r.all_freqs()
        for (lab, cols), ax in zip(want, axes):
            same_lines(ctx, "the frequencies of %s in %s" % (lab, r.name), ax, cols)
            titled(ctx, "the frequencies of %s in %s" % (lab, r.name), ax, pre(r.name, "allfreqs " + lab))
        for ax in axes[len(want):]:
            ctx.check(not ax.lines, "the frequency plot of %s has lines on an axis of no cluster" % r.name)
        ctx.count("frequencies")


def see_controller(ctx, runs):
    for r, (ax,) in zip(runs, grid(ctx, "the controller plot", runs, 1)):
        same_lines(ctx, "the controller of %s" % r.name, ax, {c: r.col("pid", lambda d, c=c: d[c]) for c in ("output", "p", "i", "d")})
        titled(ctx, "the controller of %s" % r.name, ax, pre(r.name, "PID"))
        ctx.count("controller")


def power_want(r, field, weights=None):
    return {a: r.col("gov", lambda d, i=i: d[field][i] * (1 if weights is None else weights[i] / 1024)) for i, a in enumerate(r.p["actors"])}


def see_input(ctx, runs):
    for r, (ax,) in zip(runs, grid(ctx, "the input power plot", runs, 1)):
        same_lines(ctx, "the input power of %s" % r.name, ax, power_want(r, "req_power"))
        titled(ctx, "the input power of %s" % r.name, ax, pre(r.name, "Input Power"))
        ctx.count("input power")
        if len(r.p["actors"]) > 9:
            ctx.count("ten and more actors")
    if any(r.weights for r in runs):
        see_weighted(ctx, runs)


def see_weighted(ctx, runs):
    for r, (ax,) in zip(runs, grid(ctx, "the weighted power plot", runs, 1)):
        if r.weights:
            same_lines(ctx, "the weighted power of %s" % r.name, ax, power_want(r, "req_power", r.weights))
            titled(ctx, "the weighted power of %s" % r.name, ax, pre(r.name, "Weighted Input Power"))
            ctx.count("weighted power")
        else:
            ctx.check(not ax.lines, "weighted power is drawn for %s, which has no weights" % r.name)
            ctx.count("weights of some runs only")


def see_output(ctx, runs):
    for r, (ax,) in zip(runs, grid(ctx, "the output power plot", runs, 1)):
        same_lines(ctx, "the output power of %s" % r.name, ax, power_want(r, "granted_power"))
        titled(ctx, "the output power of %s" % r.name, ax, pre(r.name, "Output Power"))
        ctx.count("output power")


def see_hist(ctx, what, ax, title, unit, vals, bins):
    t = ax.get_title()
    m = re.match(re.escape(title) + r" \(mean = (\S+?)%s, std = (\S+)\)$" % unit, t)
    ctx.check(m is not None, "%s has the title %r, expected %r with mean and deviation" % (what, t, title))
    n = len(vals)
    mean = math.fsum(vals) / n
    ctx.check(abs(float(m.group(1)) - mean) < .0051, "%s gives a mean of %s, it is %r" % (what, m.group(1), mean))
    if n > 1:
        std = math.sqrt(math.fsum((v - mean) ** 2 for v in vals) / (n - 1))
        ctx.check(abs(float(m.group(2)) - std) < .0051, "%s gives a deviation of %s, it is %r" % (what, m.group(2), std))
    have = [int(p.get_height()) for p in ax.patches]
    ctx.check(sum(have) == n, "%s counts %d values, expected %d" % (what, sum(have), n))
    ctx.check(len(have) == bins, "%s has %d bins, expected %d" % (what, len(have), bins))
    for p, c in zip(ax.patches, have):
        lo, hi = p.get_x(), p.get_x() + p.get_width()
        e = 1e-9 * max(1, abs(hi))
        inner = sum(lo + e < v < hi - e for v in vals)
        outer = sum(lo - e <= v <= hi + e for v in vals)
        ctx.check(inner <= c <= outer, "%s counts %d values from %r to %r, there are %d" % (what, c, lo, hi, inner))
    ctx.count("histograms compared")


def see_freq_hists(ctx, runs):
    for r, axes in zip(runs, grid(ctx, "the frequency histograms", runs, 2 * nfreq(runs))):
        half = len(axes) // 2
        seen = set()
        for what, kind, axs in (("out", "cpu_out", axes[:half]), ("in", "cpu_in", axes[half:])):
            cols = r.freqs(kind)
            if r.gpu:
                cols = dict(cols, GPU=r.gpu_freqs("gpu_" + what))
            want = carried(cols)
            by = {}
            for ax in axs:
                if ax.get_title():
                    by[ax.get_title().rsplit(" (mean", 1)[0]] = ax
            ctx.check(sorted(by) == sorted(pre(r.name, "freq %s %s" % (what, c)) for c in want), "the %sput frequency histograms of %s are %r, expected those of %r" % (what, r.name, sorted(by), sorted(want)))
            for c, s in want.items():
                t = pre(r.name, "freq %s %s" % (what, c))
                see_hist(ctx, "the histogram of the %sput frequencies of %s in %s" % (what, c, r.name), by[t], t, "MHz", [v for _, v in s if v is not None], 20)
                ctx.check(by[t].get_xlabel() == "Frequency (MHz)", "a frequency histogram's axis is labelled %r" % by[t].get_xlabel())


def see_temp_hist(ctx, runs):
    runs = [r for r in runs if r.thermal]
    if not runs:
        return
    for r, (ax,) in zip(runs, grid(ctx, "the temperature histograms", runs, 1)):
        see_hist(ctx, "the temperature histogram of %s" % r.name, ax, pre(r.name, "Temperature"), "C", [v for _, v in r.temps(None)], 30)


def done(ctx, what):
    from matplotlib import pyplot as plt
    ctx.check(not plt.get_fignums(), "%s drew %d figures too many" % (what, len(plt.get_fignums())))


def tables(ctx, r):
    t, lab = r.trace, {m: l for m, (l, _) in r.p["clusters"].items()}
    same_frame(ctx, "the load of %s" % r.name, t.cpu_in_power.get_load_data(lab), carried(r.load_data()))
    same_frame(ctx, "the normalized load of %s" % r.name, t.cpu_in_power.get_normalized_load_data(lab), carried(r.norm_data()))
    same_frame(ctx, "the input frequencies of %s" % r.name, t.cpu_in_power.get_all_freqs(lab), carried(r.freqs("cpu_in")))
    same_frame(ctx, "the output frequencies of %s" % r.name, t.cpu_out_power.get_all_freqs(lab), carried(r.freqs("cpu_out")))
    if r.gpu:
        ctx.count("runs with GPU")
        same_frame(ctx, "the GPU's input frequencies", t.devfreq_in_power.get_all_freqs(), {"freq": r.gpu_freqs("gpu_in")})
        same_frame(ctx, "the GPU's output frequencies", t.devfreq_out_power.get_all_freqs(), {"freq": r.gpu_freqs("gpu_out")})
    else:
        ctx.count("runs without GPU")
    got, want = t.get_all_freqs_data(lab), r.all_freqs()
    ctx.check([g[0] for g in got] == [w[0] for w in want], "the frequencies are of %r, expected %r" % ([g[0] for g in got], [w[0] for w in want]))
    for (l, df), (_, w) in zip(got, want):
        same_frame(ctx, "the frequencies of %s in %s" % (l, r.name), df, w)
    # an unknown mask is an error that names it
    gone = ctx.rng.choice(list(lab))
    part = {k: v for k, v in lab.items() if k != gone}
    for f in (t.cpu_in_power.get_load_data, t.cpu_in_power.get_normalized_load_data, t.cpu_in_power.get_all_freqs, t.cpu_out_power.get_all_freqs, t.get_all_freqs_data):
        try:
            f(part)
        except KeyError as e:
            ctx.check(gone in str(e), "the error for the unknown mask %s does not name it: %s" % (gone, e))
            ctx.count("unknown masks")
        else:
            ctx.check(False, "%s accepted the mask %s, which has no label" % (f.__name__, gone))


def own_figures(ctx, r):
    """The plots of one run on figures of their own."""
    import trappy.plot_utils as pu
    t, lab = r.trace, {m: l for m, (l, _) in r.p["clusters"].items()}
    ctx.count("own figures")
    kw = ctx.rng.choice([{}, {"width": 8}, {"height": 4}, {"width": 7, "height": 3}])
    title = ctx.rng.choice(["", "one"])
    k = ctx.rng.randrange(7)
    if k == 0:
        t.plot_load(lab, title=title, **kw)
        ax, = figure(ctx, "plot_load", 1)
        same_lines(ctx, "plot_load", ax, load_want(r, False))
        titled(ctx, "plot_load", ax, pre(title, "Utilization"))
    elif k == 1:
        t.plot_normalized_load(lab, title=title, **kw)
        ax, = figure(ctx, "plot_normalized_load", 1)
        same_lines(ctx, "plot_normalized_load", ax, load_want(r, True))
    elif k == 2:
        t.plot_allfreqs(lab, **kw)
        for l, cols in r.all_freqs():
            ax, = figure(ctx, "plot_allfreqs of %s" % l, 1)
            same_lines(ctx, "plot_allfreqs of %s" % l, ax, cols)
    elif k == 3 and r.gov:
        f, field = ctx.rng.choice([(t.thermal_governor.plot_input_power, "req_power"), (t.thermal_governor.plot_output_power, "granted_power")])
        f(list(r.p["actors"]), title=title, **kw)
        ax, = figure(ctx, f.__name__, 1)
        same_lines(ctx, f.__name__, ax, power_want(r, field))
    elif k == 4 and r.gov:
        ws = [ctx.rng.choice([1024, 300, 2000]) for _ in r.p["actors"]]
        t.thermal_governor.plot_weighted_input_power(list(zip(r.p["actors"], ws)), title=title, **kw)
        ax, = figure(ctx, "plot_weighted_input_power", 1)
        same_lines(ctx, "plot_weighted_input_power", ax, power_want(r, "req_power", ws))
        t.pid_controller.plot_controller(title=title, **kw)
        ax, = figure(ctx, "plot_controller", 1)
        same_lines(ctx, "plot_controller", ax, {c: r.col("pid", lambda d, c=c: d[c]) for c in ("output", "p", "i", "d")})
    elif k == 5 and r.thermal:
        tz = ctx.rng.choice([None] + r.p["zones"])
        want = r.temps(tz)
        try:
            t.thermal.plot_temperature(title=title, legend_label=title, tz_id=tz, **kw)
        except ValueError as e:
            ctx.check(not want, "the temperature of zone %r cannot be drawn: %s" % (tz, e))
            return
        ax, = figure(ctx, "plot_temperature", 1)
        same_lines(ctx, "plot_temperature", ax, {pre(title, "Temperature"): want})
    elif k == 6 and r.gov:
        t.thermal_governor.plot_temperature(title=title, legend_label=title, **kw)
        ax, = figure(ctx, "the governor's plot_temperature", 1)
        same_lines(ctx, "the governor's plot_temperature", ax, {pre(title, "Temperature"): r.gov_temps(None, False), "control temperature": r.gov_temps(None, True)})
    done(ctx, "a plot of one run")


def case(ctx):
    import trappy.plot_utils as pu
    from matplotlib import pyplot as plt
    from vlib.pages import shown
    rng = ctx.rng
    plt.close("all")
    plat = platform(rng)
    nrun = rng.choice([1, 1, 2, 2, 3])
    names = rng.sample(["base", "tuned", "run 3", "x"], nrun)
    if nrun == 1 and rng.random() < .4:
        names = [""]
    runs = [Run(rng, plat, n, ctx.path("run%d" % i)) for i, n in enumerate(names)]
    for r in runs:
        ctx.keep("trace of %s" % r.name, r.text)
    ctx.keep("platform", repr(plat))
    for r in runs:
        r.load()
        tables(ctx, r)
        own_figures(ctx, r)
    ctx.count("several runs" if nrun > 1 else "single runs")
    lab = {m: l for m, (l, _) in plat["clusters"].items()}
    actors = list(plat["actors"])
    ts = [r.trace for r in runs]
    kw = rng.choice([{}, {"width": 12}, {"height": 5}, {"width": 12, "height": 4}])
    allgov = all(r.gov for r in runs)

    def usable(tz):
        return all(r.temps(tz) or (r.gov and r.gov_temps(tz, False)) for r in runs)
    tzs = [z for z in [None] + plat["zones"] if usable(z)]
    whole = rng.random() < .35
    if whole and allgov and tzs:
        tz = rng.choice(tzs)
        if tz is not None:
            kw = dict(kw, tz_id=tz)
        with shown() as out:
            if nrun == 1 and rng.random() < .5:
                runs[0].name = runs[0].name if rng.random() < .5 else ""
                args = {} if not runs[0].name else {"title": runs[0].name}
                cwd = os.getcwd()
                if rng.random() < .5:
                    os.chdir(runs[0].dir)
                else:
                    args["path"] = runs[0].dir
                trappy.summary_plots(actors, dict(lab), **dict(kw, **args))
                os.chdir(cwd)
                ctx.count("summaries")
            else:
                trappy.compare_runs(actors, dict(lab), [(r.name, r.dir) for r in runs], **kw)
        ctx.count("whole comparisons")
        see_temperature(ctx, runs, tz)
        see_load(ctx, runs)
        see_freqs(ctx, runs)
        see_controller(ctx, runs)
        see_input(ctx, runs)
        see_output(ctx, runs)
        see_freq_hists(ctx, runs)
        see_temp_hist(ctx, runs)
        done(ctx, "the comparison")
    else:
        steps = [(lambda: pu.plot_load(ts, lab, **kw), see_load), (lambda: pu.plot_allfreqs(ts, lab, **kw), see_freqs), (lambda: pu.plot_freq_hists(ts, lab), see_freq_hists),
                 (lambda: pu.plot_temperature_hist(ts), see_temp_hist)]
        if allgov:
            steps += [(lambda: pu.plot_controller(ts, **kw), see_controller), (lambda: pu.plot_input_power(ts, actors, **kw), see_input),
                      (lambda: pu.plot_output_power(ts, actors, **kw), see_output)]
        for tz in tzs:
            k2 = dict(kw) if tz is None else dict(kw, tz_id=tz)
            steps.append((lambda k2=k2: pu.plot_temperature(ts, **k2), lambda c, r, tz=tz: see_temperature(c, r, tz)))
        for draw, see in rng.sample(steps, min(3, len(steps))):
            draw()
            see(ctx, runs)
            done(ctx, "a plot of several runs")
    refused(ctx, plat)
    ctx.check(actors == plat["actors"] and lab == {m: l for m, (l, _) in plat["clusters"].items()}, "the arguments were changed")
    for r in runs:
        ctx.check(trace_fingerprint(r.trace) == r.fp, "the plots changed the trace %s" % r.name)
    tasks(ctx)
    inout(ctx)
    limits(ctx)
    plt.close("all")
    ctx.seen(len(plat["clusters"]), tuple(n for _, n in plat["clusters"].values()), len(plat["actors"]), tuple(plat["zones"]), nrun, whole,
             tuple((r.gpu, r.gov, r.thermal, bool(r.weights), tuple(sorted((k, len(v)) for k, v in r.rows.items()))) for r in runs))
    ctx.sample(dict(platform=repr(plat), runs=names, lines=runs[0].text.splitlines()[2:5]))


def refused(ctx, plat):
    rng = ctx.rng
    from matplotlib import pyplot as plt
    lab = {m: l for m, (l, _) in plat["clusters"].items()}
    if rng.random() < .1:
        d = ctx.path("nopower")
        os.makedirs(d)
        with open(os.path.join(d, "trace.txt"), "w") as f:
            f.write("version = 6\ncpus=2\n" + "".join("  sh-12 [000] 10.%06d: thermal_temperature: thermal_zone=soc id=0 temp_prev=%d temp=%d\n" % (i, 20000 + i, 30000 + i) for i in range(4)))
        try:
            trappy.compare_runs(list(plat["actors"]), lab, [("x", d)])
        except ValueError as e:
            ctx.check("power" in str(e), "a run without power events is refused with %r" % str(e))
            ctx.count("no power data refused")
        else:
            ctx.check(False, "a run without power events was compared")
        for a, m in ((tuple(plat["actors"]), lab), (list(plat["actors"]), list(lab)), ("GPU", lab)):
            try:
                trappy.compare_runs(a, m, [("x", d)])
            except TypeError:
                ctx.count("wrong arguments refused")
            else:
                ctx.check(False, "compare_runs accepted %r and %r" % (a, m))
        plt.close("all")


def tasks(ctx):
    """(name, PID) of the tasks whose name contains a text."""
    rng = ctx.rng
    pool = [("sshd", 10), ("sshd", 11), ("sshd: user", 12), ("rcuos/0", 13), ("rcuos/1", 14), ("AsyncTask #1", 15), ("a", 16), ("Sshd", 17), ("sh", 10), ("make", 10), ("make", 16)]
    rows = [rng.choice(pool) for _ in range(rng.choice([1, 5, 40]))]
    text = "version = 6\ncpus=2\n" + "".join("  sh-12 [000] 10.%06d: sched_load_avg_task: comm=%s pid=%d cpu=1 load=%d util_avg=%d\n" % (i * 10, c, p, i, i) for i, (c, p) in enumerate(rows))
    path = ctx.path("tasks.txt")
    with open(path, "w") as f:
        f.write(text)
    ctx.keep("tasks", text)
    t = trappy.FTrace(path, scope="sched", window=(0, None))
    for key in rng.sample(["", "sshd", "rcuos", "/0", "user", "none", "#1", "a"], 3):
        got = t.sched_load_avg_task.get_pids(key) if key or rng.random() < .5 else t.sched_load_avg_task.get_pids()
        got = [tuple(x) for x in got]
        want = {x for x in rows if key in x[0]}
        ctx.check(sorted(got) == sorted(want), "the tasks whose name contains %r are %r, expected %r" % (key, got, sorted(want)))
        ctx.count("task lists")


def limits(ctx):
    """Sizes, titles, labels and limits of a plot that is set up as asked."""
    import trappy.plot_utils as pu
    from matplotlib import pyplot as plt
    rng = ctx.rng
    w, h = rng.choice([None, None, 8, 13]), rng.choice([None, None, 3, 5])
    nr, nc = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2])
    axes = pu.pre_plot_setup(width=w, height=h, nrows=nr, ncols=nc)
    fig = plt.gcf()
    ctx.check(np.shape(axes) == np.shape(np.squeeze(np.empty((nr, nc)))), "%d rows of %d plots are %r" % (nr, nc, np.shape(axes)))
    gw, gh = fig.get_size_inches()
    ctx.check(w is None or gw == w, "a figure of width %r is %r wide" % (w, gw))
    ctx.check(h is None or gh == h * nr, "a figure of %d rows of height %r is %r high" % (nr, h, gh))
    if w is None and h is None:
        ctx.check((gw, gh) == (10, 6 * nr), "a figure of %d rows has the size %r" % (nr, (gw, gh)))
    elif w is None or h is None:
        ctx.check(1 < gw / (gh / nr) < 2.9, "a figure of %d rows, width %r, height %r, has the size %r" % (nr, w, h, (gw, gh)))
    ax = rng.choice(list(np.ravel(axes)))
    xs = sorted(rng.uniform(-5, 50) for _ in range(rng.choice([2, 5])))
    ys = [rng.choice([rng.uniform(-100, 3000), rng.uniform(0, 1)]) for _ in xs]
    ax.plot(xs, ys)
    kw, before = {}, dict(x=ax.get_xlim(), y=ax.get_ylim())
    for k in "xy":
        if rng.random() < .7:
            kw[k + "lim"] = rng.choice(["default", "range", (rng.choice([-3, 0]), rng.choice([7, 2.5]))])
        if rng.random() < .5:
            kw[k + "label"] = rng.choice(["Time", "T (C)"])
    title = rng.choice(["", "A title"])
    pu.post_plot_setup(ax, title=title, **kw)
    titled(ctx, "a plot", ax, title)
    for k, got, lab, usual in (("x", ax.get_xlim(), ax.get_xlabel(), "default"), ("y", ax.get_ylim(), ax.get_ylabel(), "range")):
        ctx.check(lab == kw.get(k + "label", ""), "the %s axis is labelled %r" % (k, lab))
        lim, (a, b) = kw.get(k + "lim", usual), before[k]
        want = (a, b) if lim == "default" else (a - .1 * (b - a), b + .1 * (b - a)) if lim == "range" else lim
        ctx.check(np.allclose(got, want, rtol=1e-9, atol=1e-9), "the %s axis, %r, set to %r, shows %r" % (k, before[k], lim, got))
        ctx.count("limits compared")
    plt.close("all")


def inout(ctx):
    """Input and output power of each actor in the older form of the governor's event."""
    from matplotlib import pyplot as plt
    rng = ctx.rng
    if rng.random() > .2:
        return
    acts = rng.sample(["a7", "a15", "gpu", "cpus", "tot"], rng.choice([1, 2, 3]))
    rows = [{"P%s_%s" % (a, w): rng.randrange(5000) for a in acts for w in ("in", "out")} for _ in range(rng.choice([2, 9]))]
    if "tot" in acts:
        rows = [{k: v for k, v in r.items() if k != "Ptot_out"} for r in rows]
    path = ctx.path("inout.txt")
    with open(path, "w") as f:
        f.write("version = 6\ncpus=2\n" + "".join("  sh-12 [000] 10.%06d: thermal_power_allocator: %s\n" % (i * 10, " ".join("%s=%d" % kv for kv in r.items())) for i, r in enumerate(rows)))
    t = trappy.FTrace(path, scope="thermal", window=(0, None))
    t.thermal_governor.plot_inout_power(title="T")
    for a in acts:
        if a == "tot":
            continue
        ax, = figure(ctx, "plot_inout_power of %s" % a, 1)
        same_lines(ctx, "plot_inout_power of %s" % a, ax, {"P%s_%s" % (a, w): [(i * 1e-5, r["P%s_%s" % (a, w)]) for i, r in enumerate(rows)] for w in ("in", "out")})
        titled(ctx, "plot_inout_power of %s" % a, ax, "T - " + a)
        ctx.count("input and output per actor")
    done(ctx, "plot_inout_power")

