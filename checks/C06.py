"""Event formats: every built-in event's line format against its documented columns."""
import trappy
from vlib import tracegen as tg
from vlib.frames import check_rows

CASES = {"quick": 1200, "thorough": 40000}
RULE = "A case is a trace of 1-3 built-in events with 1-40 lines each in the event's kernel format and generated values; distinct by its payloads."
ASSUMPTIONS = ["cpu_frequency/cpu_capacity lines of one trace use one of the two kernel formats"]
REQUIRED = ["rows of " + n for n in sorted(tg.BUILTIN)] + ["rows of function", "idle exits", "negative return values", "short group masks"]

EXTRA = dict(tg.BUILTIN)
EXTRA["function"] = ("function", tg.e_func, "all")
NAME = {"function": "function"}


def case(ctx):
    rng = ctx.rng
    layout = tg.gen_layout(rng)
    # each event gets its turn
    alln = sorted(EXTRA)
    names = [alln[ctx.i % len(alln)]] + rng.sample(sorted(tg.BUILTIN), rng.randint(0, 2))
    form = rng.choice([0, 1])
    n = rng.choice([1, 2, 5, 15, 40])
    texts = tg.gen_times(rng, n)
    lines = []
    for i, t in enumerate(texts):
        name = rng.choice(names) if i else names[0]
        word, gen, _ = EXTRA[name]
        if gen in (tg.e_freq, tg.e_cap):
            data, cells = gen(rng, form)
        elif gen is tg.e_func:
            a, b = rng.randrange(2 ** 40), rng.randrange(2 ** 40)
            data, cells = "ip=0x%x parent_ip=0x%x" % (a, b), {"ip": a, "parent_ip": b}
        elif gen is tg.e_sysenter and rng.random() < .3:
            nr, a = rng.choice([-1, 0, 449]), [rng.choice([-1, 0x10, 255, 2 ** 63 - 1]) for _ in range(6)]
            nr = max(nr, 0)
            data = "NR %d (%s)" % (nr, ", ".join("%x" % v if v >= 0 else "-%x" % -v for v in a))
            cells = dict({"arg%d" % k: v for k, v in enumerate(a)}, nr=nr)
        else:
            data, cells = gen(rng)
        l = tg.mk_line(rng, layout, t, name, word + ":" + " " * rng.choice([1, 1, 12]), data, cells, comms=tg.SAFE_COMMS)
        if name == "cpu_idle" and cells["state"] == -1:
            ctx.count("idle exits")
        if name == "sys_exit" and cells["ret"] < 0:
            ctx.count("negative return values")
        if name == "sched_load_avg_sg" and "cpus=" + cells["cpus"] not in data:
            ctx.count("short group masks")
        lines.append(l)
    path = ctx.path("trace.txt")
    ctx.keep("trace.txt", tg.write(path, lines))
    sel = sorted(set(names))
    if rng.random() < .5:
        tr = trappy.FTrace(path, normalize_time=False)
    else:
        tr = trappy.FTrace(path, scope="custom", events=[{"function": "function"}.get(x, tg.UNIQUE_WORD.get(x, EXTRA[x][0])) for x in sel], normalize_time=False)
    times = tg.bump_times(texts)
    attr = [c for c in tr.class_definitions if tr.class_definitions[c].unique_word == "function"]
    for name in sel:
        a = attr[0] if name == "function" else name
        mine = [i for i, l in enumerate(lines) if l.table == name]
        check_rows(ctx, getattr(tr, a).data_frame, [lines[i] for i in mine], [times[i] for i in mine], mine, name)
        ctx.count("rows of " + name, len(mine))
    ctx.seen(tuple(l.data for l in lines))
    ctx.sample([l.text() for l in lines[:3]])
