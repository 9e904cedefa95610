"""Systrace: generated pages against the model of their trace section."""
import trappy
from vlib import tracegen as tg, systrace as st
from vlib.frames import check_rows, same_table

CASES = {"quick": 1000, "thorough": 30000}
RULE = ("A case is a systrace page (current or legacy layout) with decoy event lines before and after the trace section and generated kernel events and user-space "
        "markers in it; distinct by (layout, lines of the section).")
ASSUMPTIONS = ["the closing tag stands on a line of its own, as systrace writes it"]
REQUIRED = ["rows checked", "legacy pages", "current pages", "markers", "plain text markers", "empty sections", "cpu counts", "pages without task switches", "pages compared with text traces"]


def case(ctx):
    rng = ctx.rng
    layout = dict(tgid=rng.random() < .7, flags=rng.random() < .7)
    names = rng.sample(sorted(tg.PLAIN), 2) + ["sched_switch"] + rng.sample(tg.USER, 1)
    if rng.random() < .3:
        names.remove("sched_switch")
    n = rng.choice([0, 1, 3, 10, 40])
    texts = tg.gen_times(rng, n, fmt=rng.choice(["us", "us", "ns9"]))
    lines = []
    for t in texts:
        if rng.random() < .4:
            txt, cells = st.marker(rng)
            l = tg.mk_line(rng, layout, t, "tracing_mark_write", "tracing_mark_write: ", txt, cells)
            ctx.count("markers")
            if "string" in cells:
                ctx.count("plain text markers")
        else:
            l = tg.ev_line(rng, layout, t, rng.choice(names))
        lines.append(l)
    users = [x for x in names if x in tg.USER]
    body, pos = [], []
    for l in lines:
        while rng.random() < .05:
            body.append(rng.choice(["", "# a comment", "##### CPU 2 buffer started ####", "  <script>", "</script"]))
        pos.append(len(body))
        body.append(l)
    legacy = rng.random() < .4
    out, start = st.page(rng, body, layout, names, legacy, rng.random() < .8)
    ctx.count("legacy pages" if legacy else "current pages")
    if not n:
        ctx.count("empty sections")
    path = ctx.path("page.html")
    ctx.keep("page.html", tg.write(path, out, final_newline=rng.random() < .8))
    norm = rng.random() < .4
    kw = dict(normalize_time=norm, events=users)
    tr = trappy.SysTrace(path, **kw)
    times = tg.bump_times(texts)
    for name in sorted(tr.class_definitions):
        mine = [i for i, l in enumerate(lines) if l.table == name]
        df = getattr(tr, name).data_frame
        check_rows(ctx, df, [lines[i] for i in mine], [times[i] - times[0] if norm else times[i] for i in mine], [pos[i] - pos[0] for i in mine], name)
        ctx.count("rows checked", len(mine))
    sw = [l.cpu for l in lines if l.table == "sched_switch"]
    if sw:
        ctx.check(tr._cpus == 1 + max(sw), "_cpus is %r, the highest CPU in a task switch is %d" % (tr._cpus, max(sw)))
        ctx.count("cpu counts")
    else:
        ctx.count("pages without task switches")
    if lines and not any(l.table == "tracing_mark_write" for l in lines):
        # the same lines as a text trace
        tpath = ctx.path("trace.txt")
        tg.write(tpath, body)
        ft = trappy.FTrace(tpath, **kw)
        for name in sorted(tr.class_definitions):
            d = same_table(getattr(tr, name).data_frame, getattr(ft, name).data_frame)
            ctx.check(d is None, "%s differs from the text trace with the same lines: %s" % (name, d))
        ctx.count("pages compared with text traces")
    ctx.seen(legacy, tuple(l.text() for l in lines))
    ctx.sample(out[:4] + [l.text() for l in lines[:3]])
