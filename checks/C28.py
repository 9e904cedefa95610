"""Sequences of analyses over shared traces and arguments: nothing is changed, and each gives what it gives alone."""
import os, re
import numpy as np
import pandas as pd
import trappy
import trappy.plot_utils as pu
from matplotlib import pyplot as plt
from trappy.base import Base
from trappy.plotter import AttrConf
from trappy.plotter.Constraint import ConstraintManager
from trappy.plotter.EventPlot import EventPlot
from trappy.plotter.Utils import get_trace_event_data
from trappy.stats.Aggregator import MultiTriggerAggregator
from trappy.stats.Correlator import Correlator, align, shift_series
from trappy.stats.Indexer import get_unified_indexer
from trappy.stats.Topology import Topology
from trappy.stats.Trigger import Trigger
from trappy.stats.grammar import Parser
from trappy.utils import handle_duplicate_index
from checks import C22, C24
from vlib import forked, registry
from vlib.core import Inconclusive
from vlib.frames import _fp, fingerprint
from vlib.pages import shown
from vlib.plots import Gen

CASES = {"quick": 160, "thorough": 12000}
RULE = ("A case is a world of 1-2 thermal runs, a trace of task switches and 1-3 traces or tables with pivots, sharing filters, topologies, triggers, aggregators, correlators, parsers and lists, and a sequence of 6-24 analyses "
        "drawn from 4-10 with fixed arguments: expressions, inspection, aggregation, correlation, static and interactive plots, event plots, residency, callbacks, thermal helpers, constraints, duplicate handling. "
        "Distinct by (analyses in order).")
ASSUMPTIONS = ["what an analysis gives alone is taken from a forked process in which nothing else was analysed", "a parser is used with one expression: its data grows with each expression by design",
               "callbacks and user functions do not change what they are given"]
REQUIRED = ["analyses", "alone", "repeated", "worlds compared", "tables compared", "arguments compared", "expression", "inspection", "reference", "aggregation", "correlation", "static plot", "interactive plot", "event plot", "residency",
            "callbacks", "thermal tables", "thermal plots", "constraints", "duplicates", "shared parser", "trigger", "topology", "trace queries", "direct alignment", "refusals"]


# ---- what is observable of a value

def canon(x):
    if isinstance(x, pd.DataFrame):
        if isinstance(x.columns, pd.MultiIndex):
            return ("frame", tuple(map(str, x.columns)), tuple(map(str, x.dtypes)), tuple(_fp(i) for i in x.index), tuple(tuple(_fp(v) for v in x.iloc[:, j].tolist()) for j in range(x.shape[1])))
        return ("frame", fingerprint(x))
    if isinstance(x, pd.Series):
        return ("series", str(x.name), str(x.dtype), str(x.index.name), tuple(map(canon, x.index.tolist())), tuple(_fp(v) for v in x.tolist()))
    if isinstance(x, pd.Index):
        return ("index", str(x.name), tuple(map(canon, x.tolist())))
    if isinstance(x, np.ndarray):
        return ("array", x.shape, tuple(_fp(v) for v in np.ma.filled(x.astype(object), "masked").ravel().tolist()))
    if isinstance(x, dict):
        return ("dict", tuple((canon(k), canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(canon(v) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, x))))
    if isinstance(x, Topology):
        return ("topology", tuple((l, canon(x.get_level(l))) for l in ("all", "cluster", "cpu", "odd") if x.has_level(l)), canon(x.flatten()))
    if isinstance(x, trappy.BareTrace):
        return ("trace", ident(x))
    if isinstance(x, Base):
        return ("event", ident(x), fingerprint(x.data_frame))
    if isinstance(x, (str, bytes, bool, type(None))):
        return (type(x).__name__, x)
    if isinstance(x, (int, float, np.number)):
        return _fp(x)
    return (type(x).__name__, ident(x))


IDENTITY = True         # whether it is the same object; not to be asked of two processes


def ident(x):
    return id(x) if IDENTITY else 0


def trace_state(t):
    """Everything of a trace that analyses could touch."""
    out = [("name", t.name), ("filters", tuple(t.get_filters())), ("duration", repr(t.get_duration())), ("classes", tuple((c.name, id(c)) for c in t.trace_classes)), ("attributes", public(t))]
    for k in ("basetime", "endtime", "normalize_time", "window", "abs_window", "max_window", "trace_path", "_cpus", "_version", "lines", "normalized_time"):
        if k in t.__dict__:
            out.append((k, repr(t.__dict__[k])))
    for n in sorted(t.class_definitions):
        e = getattr(t, n)
        out.append((n, id(e), str(getattr(e, "pivot", None)), public(e), fingerprint(e.data_frame), tuple(e.data_frame.columns.names), e.data_frame.columns.dtype.str if len(e.data_frame.columns) else ""))
    return tuple(out)


def public(x):
    return tuple(sorted(k for k in x.__dict__ if not k.startswith("_")))


def figures():
    """What the open figures show; closes them."""
    out = []
    for n in plt.get_fignums():
        f = plt.figure(n)
        out.append(("figure", tuple(f.get_size_inches())))
        for ax in f.axes:
            leg = ax.get_legend()
            out.append((ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), ax.get_xlim(), ax.get_ylim(), ax.get_subplotspec().get_geometry() if hasattr(ax, "get_subplotspec") and ax.get_subplotspec() else None,
                        tuple((l.get_label(), canon(np.asarray(l.get_xdata(orig=True), dtype=object)), canon(np.asarray(l.get_ydata(orig=True), dtype=object)), str(l.get_color()), l.get_linestyle(), l.get_drawstyle(), l.get_linewidth(), l.get_alpha())
                              for l in ax.lines),
                        tuple((type(p).__name__, canon(np.asarray(p.get_xy(), dtype=object)) if hasattr(p, "get_xy") else None, getattr(p, "get_width", lambda: 0)(), getattr(p, "get_height", lambda: 0)(), str(p.get_facecolor())) for p in ax.patches),
                        tuple((type(c).__name__, canon(np.asarray(c.get_offsets(), dtype=object)), str(c.get_facecolor()), len(c.get_paths())) for c in ax.collections),
                        tuple(t.get_text() for t in ax.texts), None if leg is None else tuple(t.get_text() for t in leg.get_texts()),
                        tuple(t.get_text() for t in ax.get_xticklabels())))
    plt.close("all")
    return repr(out)


IDS = re.compile(r"[0-9a-f]{8}-?[0-9a-f]{4}-?[0-9a-f]{4}-?[0-9a-f]{4}-?[0-9a-f]{12}")


def page(fn):
    """The pages shown, element identifiers replaced by their order."""
    with shown() as out:
        r = fn()
    text = "\n".join(str(o) for o in out) + (r if isinstance(r, str) else "")
    names = {}
    return IDS.sub(lambda m: names.setdefault(m.group(0), "id%d" % len(names)), text)


# ---- the world

class World(object):
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        rng = ctx.rng
        self.traces, self.args, self.frames = [], {}, []
        plat = C24.platform(rng)
        self.runs = [C24.Run(rng, plat, n, ctx.path("run%d" % i)) for i, n in enumerate(rng.sample(["base", "tuned"], rng.choice([1, 1, 2])))]
        self.plat = plat
        for r in self.runs:
            r.load()
        ev, _ = C22.schedule(rng, ctx)
        self.switches = C22.make(ctx, ev)[0]
        self.g = Gen(rng, AttrConf.PIVOT_VAL, drop=.05)
        self.numbers = self.make_numbers()
        self.traces = [r.trace for r in self.runs] + [self.switches] + self.numbers + ([] if self.g.frames else list(dict.fromkeys(self.g.sources)))
        self.frames = [d for tabs in self.g.tables for d in tabs.values()]
        self.labels = {m: l for m, (l, _) in plat["clusters"].items()}
        cpus = [0, 1, 2, 3]
        self.topo = Topology(clusters=[cpus[:2], cpus[2:]])
        self.topo.add_to_level("odd", [[1, 3], [0]])
        self.filters = rng.choice([{}, {"state": ["run", "idle"]}, {"val": [0, 1, 2]}, {"state": "run"}])
        self.window = rng.choice([(0, None), (.5, 3.0)])
        self.vars = {"limit": 2, "zero": 0}
        self.keep("labels", self.labels)
        self.keep("actors", plat["actors"])
        self.keep("topology", self.topo)
        self.keep("filters", self.filters)
        self.keep("window", self.window)
        self.keep("vars", self.vars)
        self.keep("runs", [r.trace for r in self.runs])

    def keep(self, name, obj):
        """An argument that must not change."""
        self.args[name] = obj
        return obj

    def make_numbers(self):
        rng = self.rng
        out = []
        for i in range(rng.choice([1, 2, 2])):
            t = trappy.BareTrace(name="n%d" % i)
            for n in ("alpha", "beta"):
                k = rng.choice([1, 4, 12, 12])
                times = sorted(rng.sample([round(x * .13, 2) for x in range(40)], k))
                rows = [dict(cpu=rng.randrange(4), state=rng.choice(["run", "idle", "wait"]), val=rng.randrange(6), load=rng.randrange(-8, 9) / 4.) for _ in times]
                t.add_parsed_event(n, pd.DataFrame({c: [r[c] for r in rows] for c in ("cpu", "state", "val", "load")}, index=pd.Index(times, name="Time")), pivot=rng.choice([None, "cpu"]))
            out.append(t)
        return out

    def state(self):
        return dict([("trace %d (%s)" % (i, t.name), trace_state(t)) for i, t in enumerate(self.traces)] + [("table %d" % i, canon(d)) for i, d in enumerate(self.frames)]
                    + [("argument %s" % k, canon(v)) for k, v in self.args.items()] + [("registry", registry_state())])


def registry_state():
    from trappy.ftrace import GenericFTrace as G
    return tuple((k, tuple((n, id(c)) for n, c in sorted(getattr(G, k).items()))) for k in ("thermal_classes", "sched_classes", "dynamic_classes"))


# ---- the analyses: each returns (name, function giving its result)

def expression(w):
    rng = w.rng
    t = rng.choice(w.numbers)
    e = rng.choice(["alpha:val + beta:load", "alpha:val * limit", "(alpha:val > 1) & (beta:load < limit)", "numpy.mean(alpha:load)", "alpha:load ** 2 - beta:val", "numpy.max(alpha:val) + numpy.min(beta:load)", "-alpha:val", "alpha:val % 3"])
    kw = w.keep("grammar %d" % len(w.args), rng.choice([{}, {"method": "bfill"}, {"limit": 1}, {"fill": False}]))

    def go():
        return Parser(t, w.vars, window=w.window, filters=w.filters, **kw).solve(e)
    return "expression", go


def shared_parser(w):
    rng = w.rng
    t = rng.choice(w.numbers)
    p = Parser(t, pvars=w.vars, window=w.window, filters=w.filters)
    e = rng.choice(["alpha:val + alpha:load", "alpha:load", "alpha:val ** 2"])
    return "shared parser", lambda: (p.solve(e), p.solve(e), p.inspect("alpha:val"))


def inspection(w):
    t = w.rng.choice(w.numbers)
    n = w.rng.choice(["alpha:val", "beta:load", "beta:nosuch"])
    return "inspection", lambda: Parser(t, window=w.window, filters=w.filters).inspect(n)


def reference(w):
    t = w.rng.choice(w.numbers)

    def go():
        p = Parser(t, window=w.window, filters=w.filters)
        mask = p.solve("alpha:val > 1")
        mask = mask[sorted(mask.columns, key=str)[0]]
        before = canon(mask)
        r = p.ref(mask)
        if canon(mask) != before:
            w.ctx.check(False, "ref changed its mask")
        return r
    return "reference", go


def triggers(w, t):
    rng = w.rng
    f = w.keep("trigger filters %d" % len(w.args), rng.choice([{}, {"state": "run"}, {"val": [0, 1, 5]}, {"load": bool}, {"state": ["run", "wait"], "val": [1, 2, 3]}]))
    return [Trigger(t, getattr(t, rng.choice(["alpha", "beta"])), f, rng.choice(["val", "load", 1, -2]), "cpu") for _ in range(rng.choice([1, 2, 3]))]


def trigger(w):
    tr = triggers(w, w.rng.choice(w.numbers))[0]
    n = w.rng.randrange(5)
    return "trigger", lambda: tr.generate(n)


def aggregation(w):
    rng = w.rng
    trs = w.keep("triggers %d" % len(w.args), triggers(w, rng.choice(w.numbers)))
    f = rng.choice([None, lambda s: s.cumsum(), lambda s: s.sum()])
    level = rng.choice(["cpu", "cluster", "all", "odd"])
    agg = MultiTriggerAggregator(trs, w.topo, f) if f else MultiTriggerAggregator(trs, w.topo)
    fresh = rng.random() < .4

    def go():
        a = agg
        if fresh:
            a = MultiTriggerAggregator(trs, w.topo, f) if f else MultiTriggerAggregator(trs, w.topo)
        return a.aggregate(level=level)
    return "aggregation", go


def correlation(w):
    rng = w.rng
    a, b = [MultiTriggerAggregator(triggers(w, rng.choice(w.numbers)), w.topo) for _ in range(2)]
    kw = w.keep("correlator %d" % len(w.args), rng.choice([{}, {"align": False}, {"corrfunc": lambda x, y: x.corr(y)}]))
    c = Correlator(a, b, **{k: v for k, v in kw.items() if k == "corrfunc"})
    level = rng.choice(["cpu", "cluster", "all"])
    return "correlation", lambda: c.correlate(level=level)


def direct_alignment(w):
    rng = w.rng
    idx = [i * .000025 for i in range(9)]
    x, y = [w.keep("series %d" % (len(w.args) + i), pd.Series([float(rng.choice([0, 0, 1, 2])) for _ in idx], index=idx)) for i in range(2)]
    mode, k = rng.choice(["front", "back"]), rng.randint(-4, 4)
    return "direct alignment", lambda: (align(x, y, mode=mode), shift_series(x, y, k))


def plot_kw(w, interactive):
    rng, g = w.rng, w.g
    kw = {}
    if g.pivot is not None:
        kw["pivot"] = g.pivot
    if g.filters:
        kw["filters"] = w.keep("plot filters", g.filters)
    if g.permute:
        kw["permute"] = True
    elif rng.random() < .3:
        kw["concat"] = True
    if rng.random() < .4:
        kw["per_line"] = rng.choice([1, 2, 3])
    if rng.random() < .3:
        kw["map_label"] = w.keep("map_label %d" % len(w.args), {p: "label %s" % p for p in [0, 1, "2", "0f", "big", 10]})
    if rng.random() < .3:
        kw["title"] = "A title"
    if rng.random() < .2:
        kw["xlim"] = w.keep("xlim %d" % len(w.args), [0, 4.5])
    traces, templates, column = g.args()
    colors = None
    if not g.frames and rng.random() < .4:
        if rng.random() < .5:
            colors = [(1, 2, 3 + i) for i in range(g.ncol)]
        kw["signals"] = w.keep("signals %d" % len(w.args), g.signals(colors))
        templates = None
    else:
        kw["column"] = w.keep("column %d" % len(w.args), column)
    w.keep("templates %d" % len(w.args), templates)
    w.keep("sources %d" % len(w.args), traces)
    return traces, templates, w.keep("options %d" % len(w.args), kw)


def static_plot(w):
    rng = w.rng
    traces, templates, kw = plot_kw(w, False)
    bar = rng.random() < .3
    if bar:
        if rng.random() < .4:
            kw["stacked"] = True
    else:
        for k, v in (("fill", True), ("drawstyle", "steps-post"), ("scatter", True)):
            if rng.random() < .2:
                kw[k] = v
                break
    cls = trappy.BarPlot if bar else trappy.LinePlot

    def go():
        plt.close("all")
        cls(traces, templates, **kw).view()
        return figures()
    return "static plot", go


def interactive_plot(w):
    rng = w.rng
    traces, templates, kw = plot_kw(w, True)
    for k, v in (("drawstyle", "steps-post"), ("sync_zoom", True), ("fill", True), ("scatter", True)):
        if rng.random() < .2:
            kw[k] = v

    def go():
        p = trappy.ILinePlot(traces, templates, **kw)
        return page(lambda: p.view(test=True))
    return "interactive plot", go


def trace_plot(w):
    rng, t = w.rng, w.rng.choice(w.numbers)
    sig = w.keep("trace signals %d" % len(w.args), rng.choice([["alpha:val", "beta:load"], ["alpha:load"]]))

    def go():
        plt.close("all")
        trappy.LinePlot(t, signals=sig, pivot="cpu").view()
        return figures()
    return "static plot", go


def constraints(w):
    traces, templates, kw = plot_kw(w, False)
    g = w.g
    cols = kw.get("column")
    if cols is None:
        cols, templates = list(g.columns), g.templates()
    cm = []

    def go():
        if not cm:
            cm.append(ConstraintManager(traces, cols, templates, g.pivot or AttrConf.PIVOT, g.filters, zip_constraints=not g.permute))
        out = []
        for _ in range(2):
            piv, n = cm[0].generate_pivots(g.permute)
            out.append((n, list(piv), [(str(c), sorted(((str(k), canon(v)) for k, v in c.result.items()), key=str)) for c in cm[0]]))
        return out
    return "constraints", go


def residency(w):
    rng = w.rng
    kw = rng.choice([{}, {"execnames": ["sh", "task_a"]}, {"execnames": "sh"}, {"pids": [100, 107]}])
    w.keep("residency %d" % len(w.args), kw)
    return "residency", lambda: get_trace_event_data(w.switches, **kw)


def event_plot(w):
    rng = w.rng
    data = w.keep("intervals %d" % len(w.args), {"t%d" % i: [[.5 * j, .5 * j + rng.choice([0, .25, .5]), rng.randrange(3)] for j in range(rng.choice([1, 4]))] for i in range(rng.choice([1, 3]))})
    keys, dom = w.keep("keys %d" % len(w.args), sorted(data, reverse=True)), w.keep("domain %d" % len(w.args), [0, 5])
    cm = w.keep("colours %d" % len(w.args), rng.choice([None, {"t0": "red"}]))
    return "event plot", lambda: page(lambda: EventPlot(data, keys, dom, num_lanes=3, color_map=cm).html())


def callbacks(w):
    rng = w.rng
    t = rng.choice([r.trace for r in w.runs] + ([w.switches] if isinstance(w.switches, trappy.FTrace) else []))
    names = [n for n in sorted(t.class_definitions) if len(getattr(t, n).data_frame)]
    if not names:
        return "callbacks", lambda: None
    names = rng.sample(names, rng.randint(1, min(3, len(names))))

    def go():
        calls = []
        fm = {n: (lambda row, n=n: calls.append((n, tuple(sorted((k, _fp(v)) for k, v in row.items()))))) for n in names}
        before = list(fm.items())
        t.apply_callbacks(fm)
        if list(fm.items()) != before:
            w.ctx.check(False, "apply_callbacks changed its map of functions")
        return calls
    return "callbacks", go


def thermal_tables(w):
    rng = w.rng
    r = rng.choice(w.runs)
    t = r.trace
    fs = [t.cpu_in_power.get_load_data, t.cpu_in_power.get_normalized_load_data, t.cpu_in_power.get_all_freqs, t.cpu_out_power.get_all_freqs, t.get_all_freqs_data]
    f = rng.choice(fs)
    if r.gpu and rng.random() < .3:
        f = rng.choice([t.devfreq_in_power.get_all_freqs, t.devfreq_out_power.get_all_freqs])
        return "thermal tables", lambda: f()
    return "thermal tables", lambda: f(w.labels)


def thermal_plots(w):
    rng = w.rng
    ts = w.args["runs"]
    gov = all(r.gov for r in w.runs)
    actors = w.plat["actors"]
    fs = [lambda: pu.plot_load(ts, w.labels), lambda: pu.plot_allfreqs(ts, w.labels), lambda: pu.plot_freq_hists(ts, w.labels), lambda: ts[0].plot_load(w.labels), lambda: ts[0].plot_normalized_load(w.labels, title="x"),
          lambda: ts[0].plot_allfreqs(w.labels)]
    if gov:
        fs += [lambda: pu.plot_controller(ts), lambda: pu.plot_input_power(ts, actors), lambda: pu.plot_output_power(ts, actors), lambda: pu.plot_temperature(ts), lambda: pu.plot_weighted_input_power(ts, actors),
               lambda: ts[0].thermal_governor.plot_weighted_input_power([(a, 512) for a in actors])]
    if gov or all(r.thermal for r in w.runs):
        fs += [lambda: pu.plot_temperature_hist(ts)]
    f = rng.choice(fs)

    def go():
        plt.close("all")
        with shown():
            f()
        return figures()
    return "thermal plots", go


def duplicates(w):
    rng = w.rng
    obj = rng.choice(w.frames + [e.data_frame for t in w.numbers for e in t.trace_classes])
    obj = obj[~obj.index.to_series().lt(obj.index.to_series().cummax()).values] if rng.random() < .1 else obj
    if obj.index.dtype.kind != "f":
        obj = w.numbers[0].alpha.data_frame
    ser = rng.random() < .4
    x = obj[obj.columns[0]] if ser else obj
    w.keep("table %d" % len(w.args), x)
    return "duplicates", lambda: handle_duplicate_index(x)


def topology(w):
    return "topology", lambda: [w.topo.flatten(), w.topo.level_span("cluster"), w.topo.get_level("cpu"), w.topo.get_index("cluster", [0, 1]), w.topo.get_node("cluster", 1), w.topo.has_level("zzz")]


def trace_queries(w):
    t = w.rng.choice(w.traces)
    k = w.rng.choice(["", "al", "sched", "temp"])
    return "trace queries", lambda: [t.get_duration(), listed(t.get_filters()), listed(t.get_filters(k)), get_unified_indexer([e.data_frame for e in t.trace_classes[:2] if len(e.data_frame)] or [pd.DataFrame(index=[0.0])]).series() if False else None]


def listed(names):
    """Events come in the order in which their modules were imported."""
    return names if IDENTITY else sorted(names)


def refusals(w):
    """Analyses that fail leave everything alone too."""
    rng = w.rng
    t = rng.choice(w.numbers)
    k = rng.randrange(5)
    if k == 0:
        f = lambda: Parser(t, window=w.window, filters=w.filters).solve("alpha:nosuch + 1")
    elif k == 1:
        f = lambda: trappy.LinePlot(w.numbers + [t], [t.alpha, t.beta, t.alpha, t.beta, t.alpha], column=["val", "load"]).view()
    elif k == 2:
        part = w.keep("part %d" % len(w.args), dict(list(w.labels.items())[1:]))
        f = lambda: w.runs[0].trace.cpu_in_power.get_load_data(part)
    elif k == 3:
        f = lambda: t.add_parsed_event("alpha", pd.DataFrame({"x": [1]}, index=[0.5]))
    else:
        data = w.keep("intervals %d" % len(w.args), {"a": [[0, 1, "nowhere"]]})
        f = lambda: EventPlot(data, ["a"], (0, 1), lanes=["x"])

    def go():
        try:
            f()
        except Exception as e:
            plt.close("all")
            return type(e).__name__
        plt.close("all")
        return "accepted"
    return "refusals", go


KINDS = [expression, expression, shared_parser, inspection, reference, trigger, aggregation, aggregation, correlation, direct_alignment, static_plot, static_plot, interactive_plot, interactive_plot, trace_plot, constraints, residency,
         event_plot, callbacks, thermal_tables, thermal_plots, thermal_plots, duplicates, topology, trace_queries, refusals]


def attempt(f):
    """The result of an analysis in a form to compare, or its error."""
    try:
        return ("gives", canon(f()))
    except Exception as e:
        return ("fails", type(e).__name__, re.sub("0x[0-9a-f]+", "", str(e))[:200])
    finally:
        plt.close("all")


def case(ctx):
    rng = ctx.rng
    plt.close("all")
    with registry.preserved():
        w = World(ctx)
        ana = [rng.choice(KINDS)(w) for _ in range(rng.randint(4, 10))]
        start = w.state()
        ctx.keep("analyses", repr([n for n, _ in ana]))
        # what each gives when nothing else was analysed
        alone = []
        for k, (name, f) in enumerate(ana):
            st, v = forked.run(lambda f=f: attempt(f), ctx.path("alone.pickle"))
            if st != "ok":
                raise Inconclusive("%s alone: %s %s" % (name, st, v))
            alone.append(v)
            ctx.count("alone")
        seq, done = [], {}
        for _ in range(rng.choice([6, 12, 24])):
            k = rng.randrange(len(ana))
            name, f = ana[k]
            seq.append("%s#%d" % (name, k))
            ctx.keep("sequence", "\n".join(seq))
            got = attempt(f)
            ctx.count("analyses")
            ctx.count(name)
            if k in done:
                ctx.count("repeated")
            if got != alone[k]:
                ctx.check(False, "%s gives %s, when alone it gives %s" % (name, diff(got, alone[k]), "something else" if got[0] == alone[k][0] else alone[k]), sequence=seq)
            done[k] = True
            now = w.state()
            ctx.check(sorted(now) == sorted(start), "the world has %r" % sorted(now))
            for key in start:
                if now[key] != start[key]:
                    ctx.check(False, "%s changed %s: %s" % (name, key, diff(now[key], start[key])), sequence=seq)
            ctx.count("worlds compared")
            ctx.count("tables compared", sum(len(t.class_definitions) for t in w.traces) + len(w.frames))
            ctx.count("arguments compared", len(w.args))
    ctx.seen(tuple(seq), tuple(n for n, _ in ana))
    ctx.sample(dict(sequence=seq, failing=[(n, a[1:]) for (n, _), a in zip(ana, alone) if a[0] == "fails"]))
    for a, (n, _) in zip(alone, ana):
        if a[0] == "fails":
            ctx.count("failing " + n)


def diff(a, b, path=""):
    """Where two canonical values differ."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return "%s: %d parts against %d (%s against %s)" % (path, len(a), len(b), str(a)[:300], str(b)[:300])
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, "%s.%s" % (path, i))
    a, b = str(a), str(b)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    i = max(0, i - 60)
    return "%s: %r against %r" % (path, a[i:i + 200], b[i:i + 200])
