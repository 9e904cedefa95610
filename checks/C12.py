"""Callback sequences: the recorded invocations against the lines of the trace."""
import pandas as pd
import trappy
from vlib import tracegen as tg, cachework as cw
from vlib.frames import same_value, trace_fingerprint

CASES = {"quick": 500, "thorough": 20000}
RULE = ("A case is a trace (mixed events, ties and backward clocks, absent fields, arrays), parsed with or without window, normalisation and cache; callbacks for a random "
        "subset of events, in random order, some sharing a function, some events empty, some added to the trace from elsewhere, record their calls (and clobber what they were given). Calls are compared with the "
        "lines of the file and the cells of the tables. Distinct by the sequence of events called.")
ASSUMPTIONS = ["no payload field is called Index"]
REQUIRED = ["calls compared", "empty events skipped", "event switches between calls", "shared functions", "windowed", "cached", "runs with no rows at all", "added events", "rows of added events"]


def case(ctx):
    rng = ctx.rng
    layout = tg.gen_layout(rng)
    n = rng.choice([0, 2, 5, 30, 30, 80])
    names = rng.sample(sorted(tg.BUILTIN), 3) + rng.sample(tg.USER, 3)
    lines = []
    for t in tg.gen_times(rng, n):
        name = rng.choice(names)
        if name in tg.BUILTIN:
            lines.append(tg.ev_line(rng, layout, t, name))
        else:
            f = tg.gen_fields(rng)
            f.append(("uid", str(len(lines)), len(lines)))
            lines.append(tg.mk_line(rng, layout, t, name, name + ": ", tg.fields_text(f), {}))
    out = []
    for l in lines:
        if rng.random() < .1:
            out.append(rng.choice(["", "garbage", "CPU:2 [LOST 5 EVENTS]"]))
        out.append(l)
    path = ctx.path("trace.txt")
    ctx.keep("trace", tg.write(path, out))
    kw = dict(scope=rng.choice(["all", "custom"]), events=names, normalize_time=rng.random() < .5)
    if rng.random() < .3:
        kw["window"] = (rng.choice([0, .0005, .01]), rng.choice([None, .01, 1]))
        ctx.count("windowed")
    ctx.keep("args", repr(kw))
    if rng.random() < .2:
        with cw.cached(True):
            trappy.FTrace(path, **kw)
            t = trappy.FTrace(path, **kw)
        ctx.count("cached")
    else:
        t = trappy.FTrace(path, **kw)
    asked = rng.sample(names, rng.randint(1, len(names)))
    if kw["scope"] == "all" and rng.random() < .5:
        asked.append("sys_enter" if "sys_enter" not in asked else "clock_enable")
        asked = list(dict.fromkeys(asked))
    asked = [a for a in asked if a in t.class_definitions]
    # events from elsewhere are called too, between those of the trace (all at times of their own: which of two at one time comes first is open)
    used = {x for a in asked for x in getattr(t, a).data_frame.index.tolist()}
    for a in (["pmu", "probe"][:rng.choice([1, 2])] if rng.random() < .3 else []):
        end = float(t.endtime) - (float(t.basetime) if kw["normalize_time"] else 0)
        times = sorted({rng.choice([end * rng.random(), end * rng.random(), end + rng.random(), -rng.random()]) for _ in range(rng.choice([0, 1, 3, 8]))} - used)
        used.update(times)
        cols = {c: [rng.choice([rng.randrange(99), float("nan"), 1.5]) for _ in times] for c in rng.sample(["a", "value", "cpu", "_x", "__pid"], rng.randint(1, 3))}
        t.add_parsed_event(a, pd.DataFrame(cols, index=pd.Index(times, dtype=float)))
        asked.insert(rng.randint(0, len(asked)), a)
        ctx.count("added events")
    calls = []
    clobber = rng.random() < .3

    def shared(row):
        calls.append((None, dict(row)))
        if clobber:
            row.clear()

    def make(a):
        def fn(row):
            calls.append((a, dict(row)))
            if clobber:
                row["Index"] = -1
                row.pop("__line", None)
            return rng.choice([None, False, 0])
        return fn
    fn_map = {}
    for a in asked:
        if rng.random() < .2:
            fn_map[a] = shared
            ctx.count("shared functions")
        else:
            fn_map[a] = make(a)
    keep = dict(fn_map)
    fp = trace_fingerprint(t)
    expected = []
    for a in asked:
        df = getattr(t, a).data_frame
        if df.empty:
            ctx.count("empty events skipped")
            continue
        cols = {c: df[c].tolist() for c in df.columns}
        for i, tm in enumerate(df.index.tolist()):
            expected.append((cols["__line"][i] if "__line" in cols else None, a, tm, {c: v[i] for c, v in cols.items()}))
    foreign = [e for e in expected if e[0] is None]
    expected = sorted([e for e in expected if e[0] is not None], key=lambda e: e[0])
    # positions in the file are distinct, and those of lines of these events; a row from elsewhere has its time's place
    for e in foreign:
        later = [k for k, x in enumerate(expected) if x[2] > e[2]]
        expected.insert(later[0] if later else len(expected), e)
    rounds = rng.choice([1, 2])
    for k in range(rounds):
        del calls[:]
        t.apply_callbacks(fn_map)
        ctx.check(len(calls) == len(expected), "%d calls for %d rows" % (len(calls), len(expected)), events=asked)
        if foreign:
            ctx.count("rows of added events", len(foreign))
            order = [row.get("Index") for _, row in calls]
            ctx.check(all(x <= y for x, y in zip(order, order[1:])), "the calls are not in order of time", got=[(c[0], c[1].get("Index")) for c in calls][:60])
        for (name, row), (line, a, tm, cells) in zip(calls, expected):
            ctx.check(name == a or name is None and fn_map[a] is shared, "call for %s where line %s is one of %s" % (name, line, a), expected=[e[:2] for e in expected][:60], got=[(c[0], c[1].get("__line")) for c in calls][:60])
            ctx.check(set(row) == set(cells) | {"Index"}, "%s line %s: callback got the keys %s, expected %s" % (a, line, sorted(row), sorted(cells)))
            ctx.check(same_value(row["Index"], tm), "%s line %s: Index %r, expected %r" % (a, line, row["Index"], tm))
            for c, v in cells.items():
                ctx.check(same_value(row[c], v), "%s line %s: %s is %r, expected %r" % (a, line, c, row[c], v))
            ctx.count("calls compared")
        ctx.check(trace_fingerprint(t) == fp and fn_map == keep, "apply_callbacks changed the trace or its argument")
    # against the file: which line is which event's
    off = [i for i, l in enumerate(out) if not isinstance(l, str)]
    if off and expected:
        first = off[0]
        for line, a, _, cells in expected:
            if line is None:
                continue
            l = out[line + first]
            ctx.check(not isinstance(l, str) and l.table == a and ("uid" not in cells or "uid=%d" % cells["uid"] in l.data), "row of %s says line %d, which is %r" % (a, line, l if isinstance(l, str) else l.text()))
    if not expected:
        ctx.count("runs with no rows at all")
    else:
        ctx.count("event switches between calls", sum(x[1] != y[1] for x, y in zip(expected, expected[1:])))
        ctx.seen(tuple(e[1] for e in expected))
        ctx.sample(dict(sequence=[e[:2] for e in expected[:8]]))
