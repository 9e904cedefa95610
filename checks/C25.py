"""Results and parameters of Workload Automation runs against the files they were written to."""
import csv, html, io, os, re
import pandas as pd
from trappy.wa import Result, SysfsExtractor, get_results, combine_results
from trappy.wa.results import get_run_number
from vlib.frames import fingerprint, is_missing
from vlib.pages import shown

CASES = {"quick": 800, "thorough": 60000}
RULE = ("A case is 1-4 results files (0-60 rows: scores, frames per second and overall scores with and without iteration, other metrics, repeated results, whole and fractional values, run names "
        "with digits), some of whose columns are dropped before they are combined and drawn, and a parameter directory with any of the known files, other files and directories, and contents from empty to "
        "several lines with and without final newline. Distinct by (benchmarks, runs, iterations of each file; parameters).")
ASSUMPTIONS = ["a results file has at least one result and five columns in every row", "whole values are below 2**53", "run names have digits after an underscore only at the end",
               "score metrics are Overall_Score, score or FPS, alone or with an iteration"]
REQUIRED = ["files", "results compared", "repeated results", "named results", "directories", "current directory", "whole columns", "combined", "combined columns", "benchmarks not in the first input",
            "benchmarks not in every input", "same run in two inputs", "bars compared", "metrics", "parameters compared", "parameters without final newline", "text parameters", "empty parameters",
            "tables shown", "no parameters", "enlarged axes"]


def metric(rng):
    """(text, iteration or None when it is no score)"""
    k = rng.random()
    if k < .3:
        return rng.choice(["time", "Memory_score", "overall_score", "fps_1", "Total FPS", "CPU_Score_3", " score", "energy", "Score", "", "execution_time", "run_score_2"]), None
    base = rng.choice(["Overall_Score", "score", "FPS"])
    if rng.random() < .35:
        return base, 0
    n = rng.choice([1, 2, 3, 4, 10, 12, 100])
    if rng.random() < .15 and base != "Overall_Score":
        n = 0
    return base + rng.choice("_ ") + str(n), n - 1 if base == "Overall_Score" else n


def value(rng):
    k = rng.random()
    if k < .5:
        v = rng.choice([0, 1, rng.randrange(10 ** 5), 2 ** 53 - 1, -4])
        return str(v), v
    v = rng.choice([rng.random() * 500, 242.0522258138, 1e-7, 3.0, 1e300, -2.5])
    s = rng.choice(["%r", "%r", "%.3f"]) % v
    return s, float(s)


def write_file(ctx, path, pool, runs):
    rng = ctx.rng
    rows, want = [], {}
    n = rng.choice([1, 3, 12, 60])
    while True:
        m, it = metric(rng)
        s, v = value(rng)
        base = rng.choice(runs)
        bench = rng.choice(pool)
        rid = base + rng.choice(["", "_1", "_2", "_17"])
        rows.append([rid, bench, str(rng.randrange(1, 4)), m, s if it is not None or rng.random() < .7 else "n/a", rng.choice(["", "fps", "seconds"])])
        if it is not None:
            its = want.setdefault((bench, base), {})
            if it in its:
                ctx.count("repeated results")
            its.setdefault(it, v)
        if len(rows) >= n and want:
            break
    buf = io.StringIO()
    w = csv.writer(buf, lineterminator=rng.choice(["\n", "\r\n"]))
    if rng.random() < .9:
        w.writerow(["id", "workload", "iteration", "metric", "value", "units"])
    w.writerows(rows)
    text = buf.getvalue()
    if rng.random() < .1:
        text = text.rstrip("\r\n")
    with open(path, "w", newline="") as f:
        f.write(text)
    ctx.keep(os.path.relpath(path, ctx.dir), text)
    return want


def cells(s):
    return {k: v for k, v in zip(s.index.tolist(), s.tolist()) if not is_missing(v)}


def same_results(ctx, what, res, want):
    ctx.check(type(res) is Result, "%s is a %s" % (what, type(res).__name__))
    ctx.check(sorted(res.columns.tolist()) == sorted(want), "%s has the columns %r, expected %r" % (what, res.columns.tolist(), sorted(want)))
    ctx.check(res.index.is_unique, "%s has repeated iterations %r" % (what, res.index.tolist()))
    its = {i for c in want.values() for i in c}
    ctx.check(set(res.index.tolist()) == its, "%s has the iterations %r, expected %r" % (what, res.index.tolist(), sorted(its)))
    for (b, r), exp in want.items():
        got = cells(res[b][r])
        ctx.check(got == exp, "%s, %s of %s: %r, expected %r" % (what, b, r, got, exp))
        if len(exp) == len(res.index) and all(isinstance(v, int) for v in exp.values()):
            ctx.check(pd.api.types.is_integer_dtype(res[b][r].dtype), "%s, %s of %s: whole values are held as %s" % (what, b, r, res[b][r].dtype))
            ctx.count("whole columns")
        ctx.count("results compared", len(exp))


def read(ctx, k):
    rng = ctx.rng
    pool = rng.sample(["antutu", "t-rex_offscreen", "geekbench", "the chase", "a,b", "glb_2.7", "x"], rng.choice([1, 2, 4]))
    runs = rng.sample(["power_allocator", "step_wise", "base", "cfg 2", "v2", "r%d" % k], rng.choice([1, 2, 3]))
    d = ctx.path("res%d" % k)
    os.makedirs(d)
    fname = rng.choice(["results.csv", "results.csv", "other.csv"])
    path = os.path.join(d, fname)
    want = write_file(ctx, path, pool, runs)
    kw = {}
    if rng.random() < .25:
        kw["name"] = rng.choice(["malkovich", "a_1", "x y"])
    arg = [path]
    if fname == "results.csv" and rng.random() < .7:
        arg = [d]
        ctx.count("directories")
        if rng.random() < .4:
            os.chdir(d)
            arg = []
            ctx.count("current directory")
    if kw and rng.random() < .5 and arg:
        arg.append(kw.pop("name"))
        name = arg[1]
    else:
        name = kw.get("name")
    res = get_results(*arg, **kw)
    if name is not None:
        want = rename(path, name)
        ctx.count("named results")
    same_results(ctx, "the results of %s" % os.path.relpath(path, ctx.dir), res, want)
    ctx.count("files")
    return res, want


def rename(path, name):
    """All runs under one name: the first result of each iteration of a benchmark, whichever run it is of."""
    out = {}
    with open(path, newline="") as f:
        for row in csv.reader(f):
            m = row[3]
            for b in ("Overall_Score", "score", "FPS"):
                if m == b:
                    it = 0
                elif m[:len(b) + 1] in (b + "_", b + " ") and m[len(b) + 1:].isdigit():
                    it = int(m[len(b) + 1:]) - (b == "Overall_Score")
                else:
                    continue
                v = float(row[4])
                if row[4].lstrip("-").isdigit():
                    v = int(row[4])
                out.setdefault((row[1], name), {}).setdefault(it, v)
    return out


def combine(ctx, data):
    rng = ctx.rng
    ins, exp = [], []
    for res, want in data:
        want = dict(want)
        drop = [c for c in want if rng.random() < .2]
        if len(drop) < len(want):
            for c in drop:
                res = res.drop([c], axis=1) if rng.random() < .5 else Result(res[[x for x in res.columns if x != c]])
                del want[c]
        ins.append(res)
        exp.append(want)
    before = [fingerprint(r) for r in ins]
    res = combine_results(list(ins))
    ctx.check([fingerprint(r) for r in ins] == before, "combining changed the results given")
    ctx.check(type(res) is Result, "combined results are a %s" % type(res).__name__)
    cols = [c for w in exp for c in w]
    ctx.check(sorted(res.columns.tolist()) == sorted(cols), "combined results have the columns %r, expected %r" % (res.columns.tolist(), sorted(cols)))
    have = {}
    for i, c in enumerate(res.columns.tolist()):
        have.setdefault(c, []).append(cells(res.iloc[:, i]))
    for c in set(cols):
        want = [w[c] for w in exp if c in w]
        ctx.check(have[c] == want, "combined results of %r are %r, expected %r" % (c, have[c], want))
        ctx.count("combined columns", len(want))
        if len(want) > 1:
            ctx.count("same run in two inputs")
    bs = [{c[0] for c in w} for w in exp]
    if set().union(*bs) - bs[0]:
        ctx.count("benchmarks not in the first input")
    if any(set().union(*bs) != b for b in bs):
        ctx.count("benchmarks not in every input")
    ctx.count("combined")
    return res, {c: have[c] for c in have}


def draw(ctx, res, want):
    """Bars of each benchmark: one colour for each run, one bar for each iteration."""
    from matplotlib import pyplot as plt
    rng = ctx.rng
    plt.close("all")
    benches = list(dict.fromkeys(c[0] for c in want))
    mode = rng.randrange(3)
    if mode == 0:
        b = rng.choice(benches)
        title = rng.choice([None, "My Title"])
        res.plot_results_benchmark(b, title=title)
        drawn = [(plt.figure(plt.get_fignums()[0]).axes[0], b, title)]
        ctx.check(len(plt.get_fignums()) == 1, "one benchmark is drawn on %d figures" % len(plt.get_fignums()))
    elif mode == 1:
        res.init_fig()
        b = rng.choice(benches)
        res.plot_results_benchmark(b)
        drawn = [(res.ax, b, None)]
        vals = [v for c, s in want.items() if c[0] == b for v in s.values()]
        if len(vals) == sum(len(res.index) for c in want if c[0] == b):
            before = res.ax.get_ylim()
            res.enlarge_axis(res[b])
            lo, hi = res.ax.get_ylim()
            ctx.check(lo < min(vals) and max(vals) < hi, "the enlarged axis shows %r to %r, the values are from %r to %r" % (lo, hi, min(vals), max(vals)))
            # by a tenth of their range
            most = max(1, (max(vals) - min(vals)) / 10.) * 1.001
            ctx.check((lo >= min(vals) - most or lo == before[0]) and (hi <= max(vals) + most or hi == before[1]), "the axis, %r, is enlarged to %r, the values are from %r to %r" % (before, (lo, hi), min(vals), max(vals)))
            ctx.count("enlarged axes")
    else:
        res.plot_results()
        figs = plt.get_fignums()
        ctx.check(len(figs) == len(benches), "%d benchmarks are drawn on %d figures" % (len(benches), len(figs)))
        axes = {plt.figure(n).axes[0].get_title(): plt.figure(n).axes[0] for n in figs}
        ctx.check(sorted(axes) == sorted(b.replace("_", " ").title() for b in benches), "the benchmarks drawn are %r, expected %r" % (sorted(axes), benches))
        drawn = [(axes[b.replace("_", " ").title()], b, None) for b in benches]
    for ax, b, title in drawn:
        t = title or b.replace("_", " ").title()
        ctx.check(ax.get_title() == t, "the bars of %s have the title %r, expected %r" % (b, ax.get_title(), t))
        runs = [c[1] for c in res.columns if c[0] == b]
        labels = [x.get_text() for x in ax.get_xticklabels()]
        ctx.check(labels == [str(i) for i in res.index], "the bars of %s are for %r, expected %r" % (b, labels, res.index.tolist()))
        got = {c.get_label(): c for c in ax.containers}
        ctx.check(sorted(got) == sorted(runs), "the bars of %s are of %r, expected %r" % (b, sorted(got), runs))
        for r in runs:
            hs = [p.get_height() for p in got[r].patches]
            exp = [want[b, r].get(i) for i in res.index]
            ctx.check(len(hs) == len(exp) and all(h == e if e is not None else is_missing(h) or h == 0 for h, e in zip(hs, exp)), "the bars of %s in %s are %r, expected %r" % (b, r, hs, exp))
            ctx.count("bars compared", len(hs))
    plt.close("all")


KNOWN = ["integral_cutoff", "k_d", "k_i", "k_po", "k_pu", "policy", "sustainable_power"]


def sysfs(ctx):
    rng = ctx.rng
    d = ctx.path("wa_out")
    os.makedirs(d)
    sp = os.path.join(d, "after", "sys", "devices", "virtual", "thermal", "thermal_zone0")
    want = {}
    kind = rng.random()
    if kind > .1:
        os.makedirs(sp)
        names = KNOWN + ["cdev%d_weight" % i for i in rng.sample(range(13), 3)] + ["trip_point_%d_temp" % i for i in rng.sample(range(12), 3)]
        others = ["temp", "type", "mode", "trip_point_0_type", "trip_point_1_hyst", "cdev0", "available_policies", "cdev0_trip_point", "emul_temp", "slope"]
        p = rng.choice([0, .3, .7, 1])
        for n in names + others:
            if rng.random() > p:
                continue
            if rng.random() < .05:
                os.makedirs(os.path.join(sp, n))
                continue
            k = rng.random()
            if k < .5:
                v = rng.choice([0, 1024, 768, 72000, -1, -250, 10 ** 12, rng.randrange(10 ** 6)])
                s = str(v)
            elif k < .6:
                v = s = ""
            else:
                v = s = rng.choice(["power_allocator", "step_wise", "a b", "line one\nline two", "<i>", "1.5", "12 34", "0x10", "x\n", "\n", "7a", "a&b"])
            nl = rng.random() < .75
            if s == "" and not nl:
                v = ""
            elif s.endswith("\n") and not nl:
                v = s[:-1]
            with open(os.path.join(sp, n), "w") as f:
                f.write(s + ("\n" if nl else ""))
            if n in names:
                want[n] = v
                if not nl:
                    ctx.count("parameters without final newline")
                if isinstance(v, str):
                    ctx.count("text parameters" if v else "empty parameters")
    before = os.path.exists(sp) and sorted(os.listdir(sp))
    ctx.keep("parameters", repr(want))
    ex = SysfsExtractor(d)
    got = ex.get_parameters()
    ctx.check(got == want and all(type(got[k]) is type(want[k]) for k in want), "the parameters are %r, expected %r" % (got, want))
    ctx.check(ex.get_parameters() == want, "the parameters differ when asked for again")
    ctx.count("parameters compared", len(want))
    with shown() as out:
        ex.pretty_print_in_ipython()
    if not want:
        ctx.check(not out, "a table is shown for no parameters")
        ctx.count("no parameters")
    else:
        ctx.check(len(out) == 1, "%d tables are shown" % len(out))
        rows = {}
        for m in re.finditer(r"<tr>\s*<th>(.*?)</th>\s*<td>(.*?)</td>\s*</tr>", out[0], re.S):
            rows[m.group(1)] = m.group(2)
        ctx.check(sorted(rows) == sorted(want) and list(rows) == sorted(want), "the table shows %r, expected %r" % (list(rows), sorted(want)))
        for k, v in want.items():
            ctx.check(html.unescape(rows[k]).split() in (str(v).split(), repr(str(v))[1:-1].split()), "the table shows %r for %s, expected %r" % (rows[k], k, v))
        ctx.count("tables shown")
    ctx.check((os.path.exists(sp) and sorted(os.listdir(sp))) == before, "reading the parameters changed their directory")
    return tuple(sorted((k, isinstance(v, int)) for k, v in want.items()))


def case(ctx):
    rng = ctx.rng
    for _ in range(6):
        m, it = metric(rng)
        got = get_run_number(m)
        ctx.check(bool(got[0]) == (it is not None) and (it is None or got[1] == it), "the metric %r is %r, expected iteration %r" % (m, got, it))
        ctx.count("metrics")
    data = [read(ctx, k) for k in range(rng.choice([1, 2, 2, 3, 4]))]
    os.chdir(ctx.dir)
    res, want = data[0]
    if len(data) > 1:
        res, lists = combine(ctx, data)
        want = {c: s[0] for c, s in lists.items()} if all(len(s) == 1 for s in lists.values()) else None
    if want and max(abs(v) for s in want.values() for v in s.values()) < 1e250:
        draw(ctx, res, want)
    ps = sysfs(ctx)
    ctx.seen(tuple(tuple(sorted((c, tuple(sorted(s))) for c, s in w.items())) for _, w in data), ps)
    ctx.sample(dict(results=repr(data[0][1])[:300], parameters=[p[0] for p in ps]))
