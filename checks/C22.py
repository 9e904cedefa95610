"""Task residency against a simulation of the task switches, and the event plot page that shows it."""
import os
import warnings
import pandas as pd
import trappy
from trappy.plotter import plot_trace
from trappy.plotter.EventPlot import EventPlot
from trappy.plotter.Utils import get_trace_event_data
from vlib import systrace, web
from vlib.frames import fingerprint
from vlib.pages import Dom, play, shown
from vlib.tracegen import TLine, write

CASES = {"quick": 700, "thorough": 40000}
RULE = ("A case is a schedule of 2-9 tasks (idle, migration threads, tasks sharing a name, renamed tasks) on 1-5 CPUs with 1-60 switches, whole or with switches lost or repeated, "
        "at distinct or equal times, as a table or parsed from text, unfiltered or by names or PIDs given singly or as lists; and event plots of random intervals with numbered or named lanes. "
        "Distinct by (CPUs, tasks, switches, lost, filters, number of intervals of each task).")
ASSUMPTIONS = ["traces that do not say how many CPUs there are have lanes up to that of the last CPU with a switch", "PIDs asked for are not that of idle", "the trace has task switches", "what the page's script draws is C31's",
               "names are ordered by duration where the mean and the sum over one more than the number of intervals agree"]
REQUIRED = ["traces", "intervals compared", "dropped intervals", "renamed tasks", "renamed tasks dropped", "filtered by name", "filtered by PID", "filtered by both", "single values as filter", "open at the end",
            "idle switches", "migration switches", "parsed from text", "whole schedules", "plots from traces", "plots from paths", "parsed from systraces", "CPUs from the header", "CPUs from the switches", "event plots", "named lanes", "unknown lanes refused", "no lanes refused",
            "names ordered", "intervals in pages"]
COMMS = ["sh", "task_a", "task b", "rcu:1", "kworker/0:1", "sh", "my_migration", "Migration/0", "idle"]


def case(ctx):
    residency(ctx)
    plot(ctx)


def schedule(rng, ctx):
    """[(time, cpu, prev (comm, pid), next (comm, pid))] and whether nothing is lost."""
    ncpu = rng.randint(1, 5)
    tasks = {}
    for i in range(rng.randint(1, 8)):
        tasks[100 + i * 7] = rng.choice(COMMS)
    for i in range(rng.randint(0, 2)):
        tasks[10 + i] = "migration/%d" % i
    idle = {c: ("swapper/%d" % c, 0) for c in range(ncpu)}
    cur = {c: idle[c] for c in range(ncpu)}
    t, ev = rng.choice([0.5, 100.0, 6550.018511]), []
    for _ in range(rng.choice([1, 2, 5, 12, 30, 60])):
        c = rng.randrange(ncpu)
        running = {p[1] for p in cur.values()}
        free = [p for p in tasks if p not in running]
        if cur[c][1] and (rng.random() < .25 or not free):
            nxt = idle[c]
        elif free:
            p = rng.choice(free)
            if rng.random() < .05:
                tasks[p] = rng.choice(COMMS)
                ctx.count("renamed tasks")
            nxt = (tasks[p], p)
        else:
            continue
        ev.append((round(t, 6), c, cur[c], nxt))
        cur[c] = nxt
        if rng.random() < .9:
            t += rng.choice([1e-6, .001, .25, 1.5])
    if not ev:
        ev = [(t, 0, idle[0], ("sh", 5))]
    lost = rng.random() < .5
    if lost:
        out = []
        for e in ev:
            if rng.random() < .2:
                continue
            if rng.random() < .1:
                # renamed while nobody looked
                e = (e[0], e[1], e[2], (rng.choice(COMMS), e[3][1])) if e[3][1] >= 100 else e
            out.append(e)
        ev = out or ev[:1]
    return ev, not lost


def expected(ev, names, pids, ctx):
    """Each switch to a task opens an interval; the next switch from that PID closes it; being switched to again drops it."""
    kept, drops, end = [], 0, ev[-1][0]
    live = {}
    for t, cpu, prev, nxt in ev:
        if prev[1] in live:
            live.pop(prev[1])["end"] = t
        if nxt[1] in live:
            old = live.pop(nxt[1])
            old["dropped"] = True
            drops += 1
            if old["name"] != nxt[0]:
                ctx.count("renamed tasks dropped")
        if nxt[1] == 0:
            ctx.count("idle switches")
            continue
        if nxt[0].startswith("migration"):
            ctx.count("migration switches")
            continue
        if (names and nxt[0] not in names) or (pids and nxt[1] not in pids):
            continue
        iv = dict(name=nxt[0], pid=nxt[1], start=t, end=end, cpu=cpu, dropped=False)
        live[nxt[1]] = iv
        kept.append(iv)
    if live:
        ctx.count("open at the end")
    out, every = {}, set()
    for iv in kept:
        k = "%s-%d" % (iv["name"], iv["pid"])
        every.add(k)
        if not iv["dropped"]:
            out.setdefault(k, []).append([iv["start"], iv["end"], iv["cpu"]])
    return out, every, drops


def make(ctx, ev):
    """(trace, path or None, number of CPUs the trace says or None)"""
    rng = ctx.rng
    times = [e[0] for e in ev]
    if rng.random() < .4:
        # as text: times are offsets from the first
        lines = []
        for t, cpu, p, n in ev:
            data = "prev_comm=%s prev_pid=%d prev_prio=120 prev_state=%s ==> next_comm=%s next_pid=%d next_prio=120" % (p[0], p[1], rng.choice(["S", "R"]), n[0], n[1])
            lines.append(TLine(ts="%.6f" % t, table="sched_switch", word="sched_switch: ", event="sched_switch", data=data, cells={}, comm=p[0].replace(":", ""), pid=p[1], cpu=cpu, tgid=None, flags=None, pad=0))
        ctx.count("parsed from text")
        if rng.random() < .3:
            path = ctx.path(rng.choice(["trace.html", "a.b.html", "html"]))
            with open(path, "w", encoding="utf-8") as f:
                f.write("".join(l + "\n" for l in systrace.page(rng, lines, None, [], noise=False)[0]))
            ctx.count("parsed from systraces")
            return trappy.SysTrace(path), path, None
        path = ctx.path("trace.txt")
        cpus = rng.choice([None, 5, 6, 8, 16])
        write(path, lines, rng.choice([[], ["version = 6"]]) + (["cpus=%d" % cpus] if cpus else []))
        return trappy.FTrace(path), path, cpus
    df = pd.DataFrame({"__comm": [e[2][0] for e in ev], "__pid": [e[2][1] for e in ev], "__cpu": [e[1] for e in ev],
                       "prev_comm": [e[2][0] for e in ev], "prev_pid": [e[2][1] for e in ev], "prev_state": ["S"] * len(ev),
                       "next_comm": [e[3][0] for e in ev], "next_pid": [e[3][1] for e in ev]}, index=pd.Index(times, name="Time"))
    t = trappy.BareTrace()
    t.add_parsed_event("sched_switch", df)
    return t, None, None


def residency(ctx):
    rng = ctx.rng
    ev, whole = schedule(rng, ctx)
    trace, path, cpus = make(ctx, ev)
    if path:
        base = ev[0][0]
        ts = [float(x) for x in trace.sched_switch.data_frame.index]
        ctx.check(len(ts) == len(ev), "%d switches parsed of %d" % (len(ts), len(ev)))
        ev = [(x,) + e[1:] for x, e in zip(ts, ev)]
    names = pids = None
    if rng.random() < .4:
        names = rng.sample(sorted(set(COMMS)) + ["nobody"], rng.randint(1, 3))
    if rng.random() < .4:
        pool = sorted({e[3][1] for e in ev if e[3][1]} | {9999})
        pids = rng.sample(pool, rng.randint(1, min(3, len(pool))))
    kw = {}
    for k, v in (("execnames", names), ("pids", pids)):
        if v:
            kw[k] = v[0] if len(v) == 1 and rng.random() < .7 else list(v)
            if kw[k] == v[0]:
                ctx.count("single values as filter")
    ctx.count("filtered by both" if names and pids else "filtered by name" if names else "filtered by PID" if pids else "unfiltered")
    ctx.keep("switches", "\n".join("%r cpu%d %s -> %s" % e for e in ev))
    ctx.keep("filters", repr(kw))
    before = fingerprint(trace.sched_switch.data_frame)
    want, every, drops = expected(ev, names, pids, ctx)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        data, procs, domain = get_trace_event_data(trace, **kw)
    ctx.check(before == fingerprint(trace.sched_switch.data_frame), "the task switches were changed")
    have = {k: [list(map(num, i)) for i in v] for k, v in data.items() if v}
    for k in sorted(set(have) | set(want)):
        ctx.check(have.get(k) == want.get(k), "the intervals of %s are %r, expected %r" % (k, have.get(k), want.get(k)))
        ctx.count("intervals compared", len(want[k]))
    ctx.check(set(procs) == every, "the tasks are %r, expected %r" % (sorted(procs), sorted(every)))
    ctx.check(list(map(float, domain)) == [ev[0][0], ev[-1][0]], "the period is %r, expected %r" % (domain, [ev[0][0], ev[-1][0]]))
    said = [x for x in w if "orrupt" in str(x.message)]
    ctx.check(len(said) == drops, "%d warnings of %d lost switches: %r" % (len(said), drops, [str(x.message) for x in w]))
    ctx.count("dropped intervals", drops)
    if whole:
        lanes = {}
        for v in have.values():
            for s, e, c in v:
                lanes.setdefault(c, []).append((s, e))
        for c, ivs in lanes.items():
            ivs.sort()
            ctx.check(all(a[1] <= b[0] for a, b in zip(ivs, ivs[1:])), "two tasks run at once on CPU %d: %r" % (c, ivs))
        ctx.count("whole schedules")
    ctx.count("traces")
    if rng.random() < .6:
        by_path = path is not None and rng.random() < .5
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            text, r = page(ctx, lambda: plot_trace(path if by_path else trace, **kw))
        graph = r[2]
        ctx.count("CPUs from the header" if cpus else "CPUs from the switches")
        cpus = cpus or 1 + max(e[1] for e in ev)
        check_graph(ctx, graph, {k: v for k, v in want.items()}, ["CPU :%d" % i for i in range(cpus)], [ev[0][0], ev[-1][0]], None, True, extra=every)
        ctx.count("plots from paths" if by_path else "plots from traces")
    ctx.seen("residency", len(ev), len({e[1] for e in ev}), whole, bool(names), bool(pids), tuple(sorted(len(v) for v in want.values())), drops)
    ctx.sample(dict(switches=len(ev), whole=whole, filters=kw, intervals=sum(map(len, want.values())), dropped=drops))


def num(v):
    return v.item() if hasattr(v, "item") else v


def page(ctx, show):
    os.environ["JUPYTER_DATA_DIR"] = ctx.path("jupyter")
    with web.pages(), shown() as out:
        show()
    ctx.check(len(out) == 1, "%d pages were shown" % len(out))
    base = os.path.join(ctx.path("jupyter"), "nbextensions", "plotter_scripts", "EventPlot")
    ctx.check(sorted(os.listdir(base)) == ["EventPlot.js", "EventPlot_help.jpg", "d3.min.js", "d3.tip.v0.6.3.js"], "scripts installed: %r" % os.listdir(base))
    return out[0], run(ctx, out[0])


def run(ctx, text):
    dom = Dom(text)
    r = play(ctx, dom)
    ctx.check(not r["errors"], "the page's scripts fail: %r" % r["errors"])
    ctx.check(len(r["events"]) == 1 and len(r["events"][0]) == 3, "%d plots are made in the page" % len(r["events"]))
    ctx.check(r["events"][0][0] in dom.ids, "the plot is made in the element %r, the page has %r" % (r["events"][0][0], dom.ids))
    return r["events"][0]


def check_graph(ctx, graph, data, lanes, domain, color_map, summary, extra=()):
    have = {}
    for k, v in graph["data"].items():
        for lane, ivs in v.items():
            if ivs:
                have.setdefault(k, {})[int(lane)] = ivs
    want = {}
    for k, v in data.items():
        for s, e, lane in v:
            want.setdefault(k, {}).setdefault(lane, []).append([s, e])
    ctx.check(have == want, "the page has the intervals %r, expected %r" % (have, want))
    ctx.check(set(graph["data"]) <= set(data) | set(extra), "the page has data for %r" % sorted(graph["data"]))
    ctx.count("intervals in pages", sum(len(i) for v in want.values() for i in v.values()))
    ctx.check(graph["lanes"] == [{"id": i, "label": l} for i, l in enumerate(lanes)], "the lanes are %r, expected %r" % (graph["lanes"], lanes))
    ctx.check(list(graph["xDomain"]) == list(domain), "the period is %r, expected %r" % (graph["xDomain"], domain))
    ctx.check(graph["showSummary"] == summary and graph["colorMap"] == color_map, "summary %r, colours %r" % (graph["showSummary"], graph["colorMap"]))
    total = {k: sum(e - s for s, e, _ in v) for k, v in data.items()}
    keys = graph["keys"]
    ctx.check(len(keys) == len(set(keys)) and set(keys) == {k for k in total if total[k] != 0}, "the names are %r, expected those of %r that last" % (keys, total))
    for a, b in zip(keys, keys[1:]):
        worse = total[a] / len(data[a]) < total[b] / len(data[b]) * (1 - 1e-9) and total[a] / (len(data[a]) + 1) < total[b] / (len(data[b]) + 1) * (1 - 1e-9)
        ctx.check(not worse, "%r comes before %r, which lasts longer on average: %r" % (a, b, {k: data[k] for k in (a, b)}))
        ctx.count("names ordered")


def plot(ctx):
    rng = ctx.rng
    lanes = rng.sample(["big", "LITTLE", "GPU", "cpu 3", "a-b"], rng.randint(1, 5)) if rng.random() < .5 else None
    n = len(lanes) if lanes else rng.randint(1, 6)
    data = {}
    for i in range(rng.randint(1, 6)):
        ivs, t = [], rng.random()
        for _ in range(rng.choice([1, 2, 3, 9])):
            d = rng.choice([0, 0, .25, 1, 3.5])
            ivs.append([t, t + d, rng.choice(lanes) if lanes else rng.randrange(n)])
            t += d + rng.choice([0, .5])
        data[rng.choice(["t%d", "name %d", "x-%d"]) % i] = ivs
    domain = rng.choice([tuple, list])([0, 20.5])
    kw = {}
    if lanes:
        kw["lanes"] = list(lanes)
    else:
        kw["num_lanes"] = n
    prefix = "Lane: "
    if rng.random() < .4:
        prefix = kw["lane_prefix"] = rng.choice(["CPU", "L "])
    summary = rng.random() < .7
    if not summary or rng.random() < .5:
        kw["summary"] = summary
    cm = None
    if rng.random() < .4:
        cm = kw["color_map"] = {k: rng.choice(["red", "#00FF00"]) for k in data}
    ctx.keep("intervals", repr((data, domain, kw)))
    copy = {k: [list(i) for i in v] for k, v in data.items()}
    bad = rng.random()
    if bad < .1:
        args = dict(kw)
        args.pop("lanes", None)
        args.pop("num_lanes", None)
        refused(ctx, data, domain, args, "no lanes refused")
    elif bad < .2 and lanes:
        data[sorted(data)[0]][0][2] = "nowhere"
        refused(ctx, data, domain, kw, "unknown lanes refused")
        data[sorted(data)[0]][0][2] = copy[sorted(data)[0]][0][2]
    p = EventPlot(data, sorted(data), domain, **kw)
    ctx.check(data == copy, "the intervals given were changed")
    if rng.random() < .3:
        text, r = page(ctx, p.view)
    else:
        text = p.html()
        r = run(ctx, text)
    want = {k: [[s, e, lanes.index(l) if lanes else l] for s, e, l in v] for k, v in copy.items()}
    check_graph(ctx, r[2], want, lanes or ["%s%d" % (prefix, i) for i in range(n)], domain, cm, summary)
    if lanes:
        ctx.count("named lanes")
    ctx.count("event plots")
    ctx.seen("plot", n, bool(lanes), tuple(sorted(len(v) for v in data.values())), summary, cm is None)


def refused(ctx, data, domain, kw, what):
    try:
        EventPlot(data, sorted(data), domain, **kw)
    except RuntimeError:
        ctx.count(what)
    else:
        ctx.check(False, "accepted: %s" % what)
