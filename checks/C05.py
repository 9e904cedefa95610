"""Noise: a trace against the same trace with headers, junk and unknown events mixed in."""
import math, re
import trappy, warnings
from trappy.exception import TrappyParseError
from vlib import tracegen as tg
from vlib.frames import check_rows

CASES = {"quick": 1200, "thorough": 40000}
RULE = ("A case is a trace into which noise lines (headers, blank, lost-event notices, cut-off lines, comments naming known events, unknown events, payloads trace-cmd "
        "could not decode) are mixed; its tables are compared with the model of the noise-free trace. Distinct by (positions and kinds of noise, events).")
ASSUMPTIONS = ["an unknown event's time does not go beyond that of the next line (it would legitimately move it)", "files are valid UTF-8"]
REQUIRED = ["rows checked", "noise lines", "noise before the trace", "failed payloads", "undecodable payloads reported", "headers reported", "headers absent",
            "header-like lines after the start"]

NOISE = ["", "   ", "CPU:2 [LOST 1500 EVENTS]", "CPU 3 is empty", "trace-cmd: something went wrong", "# sched_switch: a comment naming an event", "##### CPU 2 buffer started ####",
         "bash-12 [00", "          bash-1234  [001]", "garbage \u00e9\u00a0 \x0c here", "bash-12 [001] notatime: sched_switch: a=1", "bash-x [001] 12.000001: cpu_idle: state=1 cpu_id=2",
         "bash-12 001 12.000001: cpu_frequency: state=1 cpu_id=0", "my_event: a=1", "<!-- sched_wakeup: -->", "------------[ cut here ]------------", "bash-1 [000] 1.000000 sched_wakeup: a=1",
         "version of thermal_temperature: none", "=", "a=b"]


def noise(rng):
    return rng.choice(NOISE)


def case(ctx):
    rng = ctx.rng
    if rng.random() < .2:
        return undecodable(ctx)
    layout = tg.gen_layout(rng)
    n = rng.choice([1, 2, 5, 20, 40])
    names = rng.sample(sorted(tg.BUILTIN), 3) + rng.sample(tg.USER, 2)
    users = [x for x in names if x in tg.USER]
    fmt = rng.choice(["us", "ns9", "ns"])
    texts = tg.gen_times(rng, n, fmt=fmt)
    lines = []
    for t in texts:
        l = tg.ev_line(rng, layout, t, rng.choice(names))
        if l.table in users and rng.random() < .3:
            # trace-cmd could read some fields only: the readable ones stay
            junk = rng.choice(["[FAILED TO PARSE] ", "[FAILED TO PARSE] foo bar ", "junk [FAILED TO PARSE] "])
            f = tg.gen_fields(rng, nmax=rng.choice([3, 5, 12]), arrays=False, words=False)
            if rng.random() < .2:
                f = []
            l.data, l.cells = (junk + tg.fields_text(f)).rstrip(" ") + (" " if not f else ""), tg.fields_cells(f)
            ctx.count("failed payloads")
        lines.append(l)
    times = tg.bump_times(texts)
    out, pos, kinds = [], [], []
    hdr = {}
    # before the trace
    for _ in range(rng.choice([0, 0, 1, 4])):
        out.append(noise(rng))
        ctx.count("noise before the trace")
    for k in ("version", "cpus"):
        if rng.random() < .6:
            hdr[k] = str(rng.choice([1, 4, 6, 8, 128]))
            out.insert(rng.randint(0, len(out)), "%s%s%s" % (k, rng.choice(["=", " = ", "  =  "]), hdr[k]))
    late = False
    for j, l in enumerate(lines):
        out.append(l)
        pos.append(len(out) - 1)
        while rng.random() < .35:
            r = rng.random()
            if r < .6:
                x = noise(rng)
            elif r < .7:
                x = rng.choice(["version = 99", "cpus=99"])
                late = True
            else:
                x = unknown(rng, layout, texts, times, j, fmt)
                if x is None:
                    continue
            kinds.append((len(out), x if isinstance(x, str) else "unknown event"))
            out.append(x)
            ctx.count("noise lines")
    if late:
        ctx.count("header-like lines after the start")
    path = ctx.path("trace.txt")
    ctx.keep("trace.txt", tg.write(path, out))
    norm = rng.random() < .4
    with warnings.catch_warnings(record=True):
        warnings.simplefilter("always")
        tr = trappy.FTrace(path, events=users, normalize_time=norm)
    first = pos[0]
    tables = set()
    for name in sorted(tr.class_definitions):
        mine = [i for i, l in enumerate(lines) if l.table == name]
        df = getattr(tr, name).data_frame
        check_rows(ctx, df, [lines[i] for i in mine], [times[i] - times[0] if norm else times[i] for i in mine], [pos[i] - first for i in mine], name, check_line=False)
        if mine:
            tables.add(name)
            ln = df["__line"].tolist()
            ctx.check(all(a < b for a, b in zip(ln, ln[1:])), "%s: __line does not increase" % name)
            ctx.count("rows checked", len(mine))
    for k in ("version", "cpus"):
        got = getattr(tr, "_" + k)
        if k in hdr:
            ctx.check(got is not None and str(got) == hdr[k], "header %s reported as %r, the trace says %s" % (k, got, hdr[k]))
            ctx.count("headers reported")
        else:
            ctx.check(got is None, "header %s reported as %r, the trace has none" % (k, got))
            ctx.count("headers absent")
    ctx.seen(tuple(kinds), tuple(sorted(tables)), tuple(texts))
    ctx.sample([o if isinstance(o, str) else o.text() for o in out[:6]])


def unknown(rng, layout, texts, times, j, fmt):
    """An unknown event between lines j and j+1 that does not disturb the clock of the later lines."""
    cur = times[j]
    ts = texts[j]
    if j + 1 < len(texts):
        # its time must stay below the next line's file value, or it would bump that line
        nxt = tg.ts_value(texts[j + 1])
        if not nxt > math.nextafter(cur, math.inf):
            return None
        if rng.random() < .3:
            ts = "0.000001" if "." in ts else "1000"
        x = max(tg.ts_value(ts), math.nextafter(cur, math.inf))
        if not nxt > x + 1e-9:
            return None
    if j + 1 < len(texts) and times[j + 1] != tg.ts_value(texts[j + 1]):
        return None
    w = rng.choice(["zz_unknown", "mm_page_alloc", "kmalloc"])
    l = tg.mk_line(rng, layout, ts, None, w + ": ", rng.choice(["a=1 b=2", "no fields", "call_site=ffffffc0 ptr=0x1", "[FAILED TO PARSE]", "={} x={1 2"]), {})
    return l


def undecodable(ctx):
    """A payload without any field and without trace-cmd's mark is an error naming the event; others are not affected."""
    rng = ctx.rng
    layout = tg.gen_layout(rng)
    name = rng.choice(["my_event", "foo_evt", "sched_wakeup", "sched_load_avg_cpu", "cpu_frequency"])
    n = rng.choice([1, 3, 10])
    texts = tg.gen_times(rng, n)
    bad = rng.randrange(n)
    lines = []
    for i, t in enumerate(texts):
        l = tg.ev_line(rng, layout, t, name)
        if i == bad:
            l.data = rng.choice(["no fields here", "x", "hello a=1", "12 b=3"])
        lines.append(l)
    path = ctx.path("trace.txt")
    ctx.keep("trace.txt", tg.write(path, lines))
    try:
        trappy.FTrace(path, events=[name], scope=rng.choice(["all", "custom"]))
    except TrappyParseError as e:
        ctx.check(name in str(e), "the error for an undecodable %s line does not name the event: %s" % (name, e))
        ctx.count("undecodable payloads reported")
    else:
        ctx.check(False, "a %s line without any recognisable field was accepted silently" % name, line=lines[bad].text())
    other = trappy.FTrace(path, scope="custom", events=["other_evt"])
    ctx.check(len(other.other_evt.data_frame) == 0, "rows for an event that is not in the trace")
    ctx.seen("bad", lines[bad].data, name, n, bad)
