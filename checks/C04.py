"""Windows: a windowed parse against the rows of the full parse selected by exact arithmetic."""
from fractions import Fraction as F
import trappy
from trappy.ftrace import GenericFTrace
from vlib import tracegen as tg
from vlib.frames import same_table

CASES = {"quick": 900, "thorough": 30000}
RULE = ("A case is a trace and several (window, abs_window, normalize_time, cached) combinations with bounds on, between, before and after its times; "
        "non-trivial when a window keeps some but not all rows, distinct by (times, windows).")
ASSUMPTIONS = ["bounds for which adding the base time in double precision changes which rows are inside are not used"]
REQUIRED = ["windows checked", "rows exactly on a bound", "both windows with an end", "open ends", "empty results", "cached parses", "rows dropped", "end bound 0"]


def case(ctx):
    rng = ctx.rng
    layout = tg.gen_layout(rng)
    n = rng.choice([2, 5, 20, 50])
    names = rng.sample(sorted(tg.PLAIN), 3) + rng.sample(tg.USER, 2)
    texts = tg.gen_times(rng, n)
    lines = [tg.ev_line(rng, layout, t, rng.choice(names + ["zz_unknown"])) for t in texts]
    path = ctx.path("trace.txt")
    ctx.keep("trace.txt", tg.write(path, lines))
    times = tg.bump_times(texts)
    base = times[0]
    users = [x for x in names if x in tg.USER]
    cached = rng.random() < .3
    GenericFTrace.disable_cache = not cached
    try:
        fulls = {nm: trappy.FTrace(path, normalize_time=nm, events=users) for nm in (False, True)}
        for _ in range(4):
            one(ctx, rng, path, times, base, users, names, fulls, cached)
    finally:
        GenericFTrace.disable_cache = True
    ctx.sample(dict(clock=texts[:5], cached=cached))


def bound(rng, times, base, rel, end):
    r = rng.random()
    if r < .25:
        return None if end else 0
    if r < .6:
        b = rng.choice(times)
    elif r < .8:
        a = rng.choice(times)
        b = (a + rng.choice(times)) / 2
    elif r < .9:
        b = base + rng.choice([-1, 0, 1, 100])
    else:
        b = 0 if rel else rng.choice([0, base, times[-1] + 5])
        return b
    if rel:
        b = b - base
    if rng.random() < .1:
        b = int(b)
    return b


def one(ctx, rng, path, times, base, users, names, fulls, cached):
    for _ in range(20):
        w = (bound(rng, times, base, True, False), bound(rng, times, base, True, True))
        a = (bound(rng, times, base, False, False), bound(rng, times, base, False, True))
        r = rng.random()
        if r < .35:
            a = (0, None)
        elif r < .6:
            w = (0, None)

        def inside(t):
            t = F(t)
            return (t >= F(w[0]) + F(base) and t >= F(a[0]) and (w[1] is None or t <= F(w[1]) + F(base)) and (a[1] is None or t <= F(a[1])))

        def finside(t):
            return t >= w[0] + base and t >= a[0] and (w[1] is None or t <= w[1] + base) and (a[1] is None or t <= a[1])
        if all(inside(t) == finside(t) for t in times):
            break
    else:
        return
    kw = {}
    if w != (0, None) or rng.random() < .5:
        kw["window"] = w
    if a != (0, None) or rng.random() < .5:
        kw["abs_window"] = a
    norm = rng.random() < .5
    ctx.keep("args", repr(dict(kw, normalize_time=norm, cached=cached)))
    tr = trappy.FTrace(path, normalize_time=norm, events=users, **kw)
    kept = dropped = 0
    for name in sorted(fulls[norm].class_definitions):
        full = getattr(fulls[norm], name).data_frame
        raw = getattr(fulls[False], name).data_frame.index
        keep = [inside(float(t)) for t in raw]
        exp = full[keep] if len(full) else full
        got = getattr(tr, name).data_frame
        d = same_table(got, exp)
        ctx.check(d is None, "window=%r abs_window=%r normalize_time=%s: %s: %s" % (w, a, norm, name, d), got=got.to_string()[:1500], expected=exp.to_string()[:1500])
        kept += sum(keep)
        dropped += len(keep) - sum(keep)
    ctx.check(float(tr.basetime) == float(base), "base time %r under a window, %r without" % (tr.basetime, base))
    ctx.count("windows checked")
    ctx.count("rows dropped", dropped)
    if any(t == a[0] or t == a[1] or t == w[0] + base or w[1] is not None and t == w[1] + base for t in times):
        ctx.count("rows exactly on a bound")
    if w[1] is not None and a[1] is not None:
        ctx.count("both windows with an end")
    if w[1] is None or a[1] is None:
        ctx.count("open ends")
    if a[1] == 0 or w[1] == 0:
        ctx.count("end bound 0")
    if not kept:
        ctx.count("empty results")
    if cached:
        ctx.count("cached parses")
    if kept and dropped:
        ctx.seen(tuple(times), w, a)
