"""Conservation and dispatch: generated event lines against the tables, for every scope and event list."""
import trappy
from trappy.ftrace import GenericFTrace
from vlib import tracegen as tg
from vlib.frames import check_rows

CASES = {"quick": 900, "thorough": 30000}
RULE = ("A case is a random interleaving of built-in, user, marker and unselected event lines with hostile task names and column layouts, parsed with a random "
        "scope and event list; non-trivial when at least two tables received rows, counted as distinct (set of tables, number of lines, order).")
ASSUMPTIONS = ["lines carry one selected unique word only, payloads are not empty and do not themselves look like a trace line"]
REQUIRED = ["rows checked", "lines without a table", "fallback rows", "fallback lines taken by a specific event", "explicit event lists", "other lines", "long traces"]


def case(ctx):
    rng = ctx.rng
    scope = rng.choice(tg.SCOPES + ["all"])
    layout = tg.gen_layout(rng)
    users = rng.sample(tg.USER, rng.randint(0, 4))
    builtins = rng.sample(sorted(tg.BUILTIN), rng.randint(1, 9))
    # explicit events: some user events, some built-ins by name or unique word
    explicit = []
    asked = set()
    for u in users:
        if rng.random() < .7:
            explicit.append(u)
            asked.add(u)
    for b in builtins:
        if rng.random() < .3:
            uw = tg.UNIQUE_WORD.get(b, tg.BUILTIN[b][0] + ":")
            explicit.append(rng.choice([b, uw, uw.rstrip(":")]))
            asked.add(b)
    if rng.random() < .2:
        explicit.append("tracing_mark_write")
    mark = scope != "custom" or "tracing_mark_write" in explicit
    rng.shuffle(explicit)
    if explicit:
        ctx.count("explicit event lists")
    selected = set(n for n in tg.BUILTIN if tg.in_scope(n, scope)) | asked
    names = builtins + users
    n = rng.choice([1, 3, 10, 30, 60])
    if rng.random() < .006:
        n = rng.choice([10001, 12000, 21000])        # tables of more than 10000 rows
        names = rng.sample(names, min(2, len(names)))
        ctx.count("long traces")
    times = tg.gen_times(rng, n)
    lines = []
    for i in range(n):
        r = rng.random()
        if r < .15:
            # user-space marker, possibly naming a user event
            if users and rng.random() < .5:
                u = rng.choice(users)
                f = tg.gen_fields(rng, arrays=False)
                l = tg.mk_line(rng, layout, times[i], u, "tracing_mark_write: %s: " % u, tg.fields_text(f), tg.fields_cells(f))
                if u not in asked:
                    # not selected: the catch-all gets it, as free text (the words up to the last "word: " are the event part)
                    l.table, l.cells = "tracing_mark_write", {"string": tg.fields_text(f)}
                else:
                    ctx.count("fallback lines taken by a specific event")
                if rng.random() < .5:
                    l.prefix = "print:    "
            else:
                txt = rng.choice(["TRACE_MARKER_START", "hello world", "a=1 b=2", "x", "B|12|foo", "say \"hi\", ok"])
                l = tg.mk_line(rng, layout, times[i], "tracing_mark_write", "tracing_mark_write: ", txt, {"string": txt})
        else:
            l = tg.ev_line(rng, layout, times[i], rng.choice(names))
        lines.append(l)
    final_nl = rng.random() < .8
    path = ctx.path("trace.txt")
    # lines that are no events keep their place in the count of lines
    out, pos = [], []
    junk = rng.choice([0, 0, .1, .4])
    for l in lines:
        pos.append(len(out))
        out.append(l)
        while rng.random() < junk:
            out.append(rng.choice(["", "   ", "CPU:2 [LOST 1500 EVENTS]", "# a comment", "garbage", "\t", "CPU 3 is empty", "##### CPU 2 buffer started ####"]))
            ctx.count("other lines")
    txt = tg.write(path, out, rng.choice(tg.HEADERS), final_nl)
    ctx.keep("trace.txt", txt)
    ctx.keep("args", repr(dict(scope=scope, events=explicit)))
    ev = explicit
    if len(explicit) == 1 and rng.random() < .5:
        ev = explicit[0]
    trace = trappy.FTrace(path, scope=scope, events=ev, normalize_time=False)
    if mark:
        selected.add("tracing_mark_write")
    allt = tg.bump_times([l.ts for l in lines])
    used = set()
    total = 0
    for name in sorted(selected):
        mine = [(i, l) for i, l in enumerate(lines) if l.table == name]
        df = getattr(trace, name).data_frame
        check_rows(ctx, df, [l for _, l in mine], [allt[i] for i, _ in mine], [pos[i] for i, _ in mine], name)
        ctx.count("rows checked", len(mine))
        total += len(mine)
        if mine:
            used.add(name)
            if name == "tracing_mark_write":
                ctx.count("fallback rows", len(mine))
    # no other table exists that got rows
    for name in trace.class_definitions:
        if name not in selected:
            ctx.check(len(getattr(trace, name).data_frame) == 0, "table %s was not selected but has rows" % name)
    ctx.count("lines without a table", len(lines) - total)
    if len(used) > 1:
        ctx.seen(tuple(l.table for l in lines), scope)
    ctx.sample(dict(scope=scope, events=explicit, lines=[l.text() for l in lines[:4]], tables=sorted(used)))
