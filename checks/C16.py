"""Triggers and their aggregation over topologies, against a model over plain rows."""
import pandas as pd
import trappy
from trappy.stats.Topology import Topology
from trappy.stats.Trigger import Trigger
from trappy.stats.Aggregator import MultiTriggerAggregator
from vlib import tracegen as tg
from vlib.frames import fingerprint

CASES = {"quick": 1200, "thorough": 60000}
RULE = ("A case is one or two traces (tables added to a bare trace, or a parsed trace of task switches) and 1-3 triggers with random filters (value, list, plain and stateful "
        "predicates, absent columns), values (numbers, columns) and pivots; every trigger is generated for present and absent pivot values, then 2-6 aggregations at random "
        "levels of a random topology with a random function. Distinct by (filter kinds, value kind, function, levels, sizes).")
ASSUMPTIONS = ["the times of an event are distinct", "aggregated columns are numbers", "predicates take one value and are asked for the rows of the pivot value in order"]
REQUIRED = ["triggers generated", "list filters", "predicates", "stateful predicates", "column values", "absent pivot values", "aggregations", "repeated aggregations", "later trigger overrides",
            "default function", "vector functions", "scalar functions", "function arguments", "single trigger", "two traces", "parsed traces"]


class Falling(object):
    """A predicate with memory: the value went down since the row before."""
    def __init__(self):
        self.prev = None

    def __call__(self, v):
        r = self.prev is not None and v < self.prev
        self.prev = v
        return r


def tables(ctx):
    rng = ctx.rng
    out = []
    if rng.random() < .12:
        layout = tg.gen_layout(rng)
        path = ctx.path("trace.txt")
        times = tg.gen_times(rng, rng.choice([3, 20]), fmt="us")
        tg.write(path, [tg.ev_line(rng, layout, t, "sched_switch") for t in times])
        t = trappy.FTrace(path, scope="custom", events=["sched_switch"], name="p")
        ctx.count("parsed traces")
        df = t.sched_switch.data_frame
        rows = [(float(i), dict(zip(df.columns, r))) for i, r in zip(df.index, df.itertuples(index=False, name=None))]
        return [(t, t.sched_switch, rows, ["__cpu", "next_pid"], ["next_prio", "prev_pid"])]
    pool = sorted({round(rng.uniform(0, 5), 2) for _ in range(15)})
    for ti in range(rng.choice([1, 1, 2])):
        t = trappy.BareTrace(name="t%d" % ti)
        for n in rng.sample(["alpha", "beta", "gamma"], rng.choice([1, 2])):
            k = rng.choice([0, 1, 4, 10])
            times = sorted(rng.sample(pool, min(k, len(pool))))
            rows = [(x, {"cpu": rng.randrange(4), "task": rng.choice("abc"), "state": rng.choice(["run", "idle", "wait"]), "val": rng.randrange(6), "load": rng.uniform(-2, 2)}) for x in times]
            df = pd.DataFrame({c: [r[c] for _, r in rows] for c in ("cpu", "task", "state", "val", "load")}, index=pd.Index(times, name="Time", dtype=float))
            if not k:
                df = df.astype({"cpu": "int64", "val": "int64", "load": float})
            t.add_parsed_event(n, df)
            out.append((t, getattr(t, n), rows, ["cpu", "task"], ["val", "load"]))
        if ti:
            ctx.count("two traces")
    return out


def gen_filters(ctx, rows, parsed):
    rng = ctx.rng
    f, model = {}, []
    cols = ["next_prio", "prev_comm", "__pid"] if parsed else ["state", "val", "load", "cpu"]
    for c in rng.sample(cols, rng.choice([0, 1, 1, 2])):
        vals = [r[c] for _, r in rows] or [0]
        k = rng.random()
        if k < .25:
            v = rng.choice(vals)
            f[c] = v
            model.append((c, lambda x, v=v: x == v, "value"))
        elif k < .55:
            v = [rng.choice(vals) for _ in range(rng.choice([1, 2, 3]))]
            f[c] = v
            ctx.count("list filters")
            model.append((c, lambda x, v=v: x in v, "list"))
        elif k < .8:
            v = rng.choice(vals)
            p = rng.choice([lambda x, v=v: x >= v, lambda x, v=v: x != v])
            f[c] = p
            ctx.count("predicates")
            model.append((c, p, "predicate"))
        else:
            f[c] = Falling()
            ctx.count("stateful predicates")
            model.append((c, Falling, "stateful"))
    if rng.random() < .1:
        f["nosuch"] = rng.choice([1, [1, 2]])
        model.append((None, None, "absent"))
    return f, model


def expected(rows, pivot, node, model, value):
    mine = [(t, r) for t, r in rows if r[pivot] == node]
    keep = [True] * len(mine)
    for c, p, kind in model:
        if kind == "absent":
            continue
        if kind == "stateful":
            p = p()
        keep = [k and ok for k, ok in zip(keep, [bool(p(r[c])) for _, r in mine])]
    return [(t, r[value] if isinstance(value, str) else value) for (t, r), k in zip(mine, keep) if k]


def close(a, b):
    return a == b or abs(float(a) - float(b)) <= 1e-9 * max(abs(float(a)), abs(float(b)), 1)


def case(ctx):
    rng = ctx.rng
    evs = tables(ctx)
    for t, e, rows, _, _ in evs:
        ctx.keep("table %s.%s" % (t.name, e.name), e.data_frame.to_string())
    fps = [fingerprint(e.data_frame) for _, e, _, _, _ in evs]
    pk = rng.choice([0, 1])
    specs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        t, e, rows, pivots, values = rng.choice(evs)
        filters, model = gen_filters(ctx, rows, isinstance(t, trappy.FTrace))
        value = rng.choice([1, -2, 0.5, 3] + values)
        specs.append((t, e, rows, filters, model, value, pivots[pk]))
    nodes = sorted({r[p] for _, _, rows, _, _, _, p in specs for _, r in rows}, key=str)
    absent = "zz" if nodes and isinstance(nodes[0], str) else 99
    ctx.keep("triggers", "\n".join("%s.%s filters %s value %r pivot %s" % (t.name, e.name, f, v, p) for t, e, _, f, _, v, p in specs))
    for t, e, rows, f, model, value, pivot in specs:
        tmpl = rng.choice([e, t.class_definitions[e.name]])
        for node in nodes + [absent]:
            if any(k == "stateful" for _, _, k in model):
                f = {k: Falling() if isinstance(v, Falling) else v for k, v in f.items()}
            keep = repr(f)
            got = Trigger(t, tmpl, f, value, pivot).generate(node)
            want = expected(rows, pivot, node, model, value)
            pts = [(float(i), v) for i, v in zip(got.index, got.tolist())]
            ctx.check(isinstance(got, pd.Series) and len(pts) == len(want) and all(a[0] == b[0] and (a[1] == b[1]) for a, b in zip(pts, want)),
                      "trigger on %s for %s=%r gives %r, expected %r" % (e.name, pivot, node, pts, want), filters=keep, value=repr(value))
            ctx.check(repr(f) == keep, "the filters were changed")
            ctx.count("triggers generated")
            if node == absent:
                ctx.count("absent pivot values")
            if isinstance(value, str):
                ctx.count("column values")
    aggregate(ctx, specs, nodes, absent)
    ctx.check(fps == [fingerprint(e.data_frame) for _, e, _, _, _ in evs], "a table of the trace was changed")


def aggregate(ctx, specs, nodes, absent):
    rng = ctx.rng
    if not nodes:
        return
    nodes = nodes[:6]
    if rng.random() < .3:
        nodes = nodes + [absent]
    rng.shuffle(nodes)
    clusters, i = [], 0
    while i < len(nodes):
        k = rng.choice([1, 2, 3])
        clusters.append(nodes[i:i + k])
        i += k
    topo = Topology(clusters=clusters) if rng.random() < .7 else Topology()
    levels = {}
    if not topo.has_level("cluster"):
        topo.add_to_level("grp", clusters)
        levels["grp"] = clusters
    else:
        levels["cluster"] = clusters
        levels["cpu"] = [list(g) for g in topo.get_level("cpu")]
        ctx.check(sorted(levels["cpu"], key=str) == sorted([[n] for n in nodes], key=str), "level cpu is %r for the nodes %r" % (levels["cpu"], nodes))
    if rng.random() < .4:
        own = [rng.sample(nodes, rng.randint(1, len(nodes))) for _ in range(rng.choice([1, 2, 3]))]
        topo.add_to_level("own", own)
        levels["own"] = own
    levels["all"] = [nodes]
    # the series of each node
    times = sorted({t for _, _, rows, _, _, _, _ in specs for t, _ in rows})
    base = {}
    def build():
        for n in nodes:
            d = dict.fromkeys(times, 0.0)
            for _, _, rows, _, model, value, pivot in specs:
                pts = expected(rows, pivot, n, model, value)
                for t, v in pts:
                    if d[t]:
                        ctx.count("later trigger overrides")
                    d[t] = v
            base[n] = [float(d[t]) for t in times]
    stateful = any(k == "stateful" for s in specs for _, _, k in s[4])
    if stateful:
        # a stateful predicate goes on from one node to the next; the order of nodes is not specified
        specs = [s for s in specs if not any(k == "stateful" for _, _, k in s[4])]
        if not specs:
            return
        times = sorted({t for _, _, rows, _, _, _, _ in specs for t, _ in rows})
    build()
    triggers = [Trigger(t, e, f, v, p) for t, e, _, f, _, v, p in specs]
    fn = rng.choice(["none", "none", "sum", "cumsum", "identity", "scaled"])
    calls = []

    def scaled(series, factor=1, **kw):
        calls.append((factor, kw))
        return series * factor
    func = {"none": None, "sum": lambda s: s.sum(), "cumsum": lambda s: s.cumsum(), "identity": lambda s: s, "scaled": scaled}[fn]
    if len(triggers) == 1 and rng.random() < .5:
        triggers = triggers[0]
        ctx.count("single trigger")
    args = (triggers, topo) + (() if func is None and rng.random() < .5 else (func,))
    agg = MultiTriggerAggregator(*args)
    seq, first = [], {}
    ctx.keep("topology", repr(levels))
    for _ in range(rng.randint(2, 6)):
        level = rng.choice(sorted(levels))
        kw = {} if level == "all" and rng.random() < .4 else {"level": level}
        factor = 1
        if fn == "scaled":
            factor = rng.choice([1, 2, -3])
            kw["factor"] = factor
            ctx.count("function arguments")
        seq.append(kw)
        ctx.keep("aggregations", "\n".join(map(str, seq)))
        got = agg.aggregate(**kw)
        ctx.check(len(got) == len(levels[level]), "%d results for the %d groups of level %s" % (len(got), len(levels[level]), level))
        for g, (r, group) in enumerate(zip(got, levels[level])):
            vec = [sum(col) for col in zip(*(run(fn, base[n], factor) for n in group))] if fn != "sum" else sum(sum(base[n]) for n in group)
            if fn == "sum":
                ctx.check(close(r, vec), "level %s, group %s: %r, expected %r" % (level, group, r, vec), series=repr(base))
                ctx.count("scalar functions")
            else:
                ctx.check(isinstance(r, pd.Series) and [float(x) for x in r.index] == times, "level %s, group %s: times %s, expected %s" % (level, group, getattr(r, "index", r), times))
                ctx.check(all(close(a, b) for a, b in zip(r.tolist(), vec)), "level %s, group %s: %s, expected %s" % (level, group, r.tolist(), vec), series=repr(base))
                ctx.count("vector functions")
        if level in first:
            ctx.count("repeated aggregations")
        first[level] = 1
        ctx.count("aggregations")
        if fn == "none":
            ctx.count("default function")
    ctx.seen(fn, tuple(sorted(first)), len(specs), len(nodes), len(times), tuple(sorted(k for s in specs for _, _, k in s[4])))
    ctx.sample(dict(levels=repr(levels), function=fn, calls=len(seq)))


def run(fn, xs, factor):
    if fn == "cumsum":
        out, s = [], 0.0
        for x in xs:
            s += x
            out.append(s)
        return out
    return [x * factor for x in xs]
