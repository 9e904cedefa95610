"""Workloads for the cache: rich trace files and parse arguments."""
import os
import trappy
from trappy.ftrace import GenericFTrace
from . import tracegen as tg, systrace as st

CLASHES = [("MyEvent", "my_event:"), ("MyEvent", "foo_evt:"), ("FooEvt", "foo_evt:"), ("foo_evt", "foo_evt:"), ("LatProbe", "lat_probe"), ("LatProbe", "irq_probe:"),
           ("my_event", "irq_probe:"), ("SchedSwitchX", "ipi_raise_y:"), ("Gpu_Sched", "gpu_sched_trace:")]


def body(rng, n=None, names=None):
    layout = tg.gen_layout(rng)
    n = n if n is not None else rng.choice([0, 1, 3, 10, 25])
    names = names or (rng.sample(sorted(tg.BUILTIN), 4) + rng.sample(tg.USER, 3))
    lines = []
    for t in tg.gen_times(rng, n):
        r = rng.random()
        if r < .2:
            txt = st.marker(rng)[0] if rng.random() < .6 else rng.choice(["1", "007", "1e5", "NA", "a,b", "\"x\"", "x\u00a0y", "true", "{}", "[1]", "a\\nb", "'", "#"])
            lines.append(tg.mk_line(rng, layout, t, "tracing_mark_write", "tracing_mark_write: ", txt, {}))
        elif r < .35:
            u = rng.choice([x for x in names if x in tg.USER] or tg.USER)
            f = tg.gen_fields(rng, arrays=False)
            lines.append(tg.mk_line(rng, layout, t, u, "tracing_mark_write: %s: " % u, tg.fields_text(f), {}))
        else:
            name = rng.choice(names)
            if name in tg.BUILTIN:
                lines.append(tg.ev_line(rng, layout, t, name))
            else:
                f = tg.gen_fields(rng)
                if all(x[1] == "{}" for x in f):
                    f.append(("zz", "1", 1))
                lines.append(tg.mk_line(rng, layout, t, name, name + ": ", tg.fields_text(f), {}))
    return layout, names, lines


def text(rng, html=False):
    layout, names, lines = body(rng)
    if html:
        return "\n".join(st.page(rng, lines, layout, names)[0]) + "\n"
    hdr = rng.choice(tg.HEADERS)
    return "".join(x + "\n" for x in list(hdr) + [l.text() for l in lines])


def args(rng, lo=0.0, hi=0.01):
    kw = {}
    kw["scope"] = rng.choice(["all", "all", "sched", "thermal", "custom"])
    ev = []
    for u in tg.USER:
        if rng.random() < .25:
            ev.append(u)
    for b in ("sched_switch", "cpu_idle", "cpu_frequency", "thermal", "tracing_mark_write", "sys_enter"):
        if rng.random() < .15:
            ev.append(b)
    rng.shuffle(ev)
    kw["events"] = ev
    if rng.random() < .3:
        kw["window"] = (rng.choice([0, 0, .0001, .5]), rng.choice([None, .001, 1, 10]))
    if rng.random() < .15:
        kw["abs_window"] = (rng.choice([0, 6550.5]), rng.choice([None, 6560, 99938]))
    kw["normalize_time"] = rng.random() < .5
    kw["name"] = rng.choice(["", "run"])
    return kw


def clashes(kw):
    """The unique words of these explicit events and the registered events would be refused."""
    words = set()
    for s in ("thermal_classes", "sched_classes", "dynamic_classes"):
        words |= set(c.unique_word for c in getattr(GenericFTrace, s).values())
    return words


class cached(object):
    def __init__(self, on):
        self.on = on

    def __enter__(self):
        self.old = GenericFTrace.disable_cache
        GenericFTrace.disable_cache = not self.on

    def __exit__(self, *a):
        GenericFTrace.disable_cache = self.old


def tree(path):
    """{relative path: content or kind} of a directory."""
    out = {}
    for root, dirs, files in os.walk(path):
        for d in dirs:
            out[os.path.relpath(os.path.join(root, d), path)] = "dir"
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, path)] = fh.read()
    return out
