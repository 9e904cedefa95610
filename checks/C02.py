"""Timestamps: the index of every table against the file's clock values."""
import math
import trappy
from vlib import tracegen as tg

CASES = {"quick": 1200, "thorough": 40000}
RULE = ("A case is a trace with a generated clock (microsecond, nanosecond decimals or integer nanoseconds; increasing, tied, going backwards, zero), events "
        "spread over several tables and unknown events, parsed with and without normalisation; distinct by its list of clock texts.")
ASSUMPTIONS = ["times below about 10^7 s, so that doubles carry the clock's digits"]
REQUIRED = ["rows checked", "clock ties", "clock going backwards", "integer nanosecond clocks", "traces without a trace line", "unselected first lines"]


def case(ctx):
    rng = ctx.rng
    layout = tg.gen_layout(rng)
    n = rng.choice([0, 1, 2, 5, 20, 60])
    names = rng.sample(sorted(tg.PLAIN), 3) + rng.sample(tg.USER, 2)
    other = "zz_unknown"
    texts = tg.gen_times(rng, n)
    if rng.random() < .15 and n:
        k = rng.randint(1, n)
        texts[:k] = [rng.choice(["0.000000", "0", "0.000001"])] * k
    if rng.random() < .1 and n > 2:      # both notations in one file
        texts = [t if "." in t or rng.random() < .5 else "%d.%09d" % divmod(int(t), 10 ** 9) for t in texts]
    lines = [tg.ev_line(rng, layout, t, rng.choice(names + [other])) for t in texts]
    if n > 1 and rng.random() < .3:
        lines[0] = tg.ev_line(rng, layout, texts[0], other)
    path = ctx.path("trace.txt")
    ctx.keep("trace.txt", tg.write(path, lines, rng.choice(tg.HEADERS)))
    times = tg.bump_times([l.ts for l in lines])
    raw = [tg.ts_value(t) for t in texts]
    ctx.count("clock ties", sum(a == b for a, b in zip(raw, raw[1:])))
    ctx.count("clock going backwards", sum(a > b for a, b in zip(raw, raw[1:])))
    if n and "." not in texts[0]:
        ctx.count("integer nanosecond clocks")
    if not n:
        ctx.count("traces without a trace line")
    elif lines[0].table == other:
        ctx.count("unselected first lines")
    users = [x for x in names if x in tg.USER]
    for norm in (False, True):
        tr = trappy.FTrace(path, normalize_time=norm, events=users)
        base = times[0] if times else 0
        ctx.check(float(tr.basetime) == float(base), "base time is %r, the first trace line is at %r" % (tr.basetime, base))
        end = times[-1] if times else 0
        ctx.check(float(tr.endtime) == float(end), "end time is %r, the last trace line is at %r" % (tr.endtime, end))
        firsts, lasts, seen = [], [], []
        for name in sorted(tr.class_definitions):
            df = getattr(tr, name).data_frame
            mine = [i for i, l in enumerate(lines) if l.table == name]
            ctx.check(len(df) == len(mine), "table %s has %d rows, expected %d" % (name, len(df), len(mine)))
            if not mine:
                continue
            got = [float(x) for x in df.index]
            exp = [times[i] - base if norm else times[i] for i in mine]
            ctx.check(got == exp, "normalize_time=%s: times of %s are %r, expected %r" % (norm, name, got, exp))
            ctx.check(df.index.name == "Time", "index of %s is called %r" % (name, df.index.name))
            if not norm:
                seen += list(zip(mine, got))
            firsts.append(got[0])
            lasts.append(got[-1])
            ctx.count("rows checked", len(mine))
        seen.sort()
        ctx.check(all(a[1] < b[1] for a, b in zip(seen, seen[1:])), "times of all events do not strictly increase in file order")
        dur = max(lasts) - min(firsts) if firsts else 0
        ctx.check(float(tr.get_duration()) == float(dur), "duration is %r, the tables span %r" % (tr.get_duration(), dur))
    if n > 1:
        ctx.seen(tuple(texts))
    ctx.sample(dict(clock=texts[:8], first=lines[0].table if lines else None))
