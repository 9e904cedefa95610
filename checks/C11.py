"""Registry histories: every parse's set of tables, class attributes and row counts against a model of the registry."""
import re
import trappy
from trappy.base import Base
from vlib import tracegen as tg, systrace as st, registry
from vlib.frames import trace_fingerprint

CASES = {"quick": 320, "thorough": 12000}
RULE = ("A case is a history of registrations (dynamic or class based, any scope, with and without pivot and name), unregistrations and parses (any scope; explicit "
        "events by name, unique word, unique word without colon, unknown, close to those of others, repeated, as a single string); after each parse the set of tables, filters, attributes, "
        "pivots and row counts is compared with a model of the registry, earlier traces must not change. Distinct by the history.")
ASSUMPTIONS = ["no two registered events share a name across scopes"]
REQUIRED = ["parses compared", "refused parses", "registrations", "unregistrations", "wrong attribute errors", "explicit unknown events", "explicit by unique word",
            "earlier traces compared", "filters with a key", "registered events parsed", "systrace parses",
            "names taken over", "explicit names close to others", "unregistrations of what is not registered"]

THERMAL = ["thermal", "thermal_governor", "cpu_out_power", "cpu_in_power", "pid_controller", "devfreq_in_power", "devfreq_out_power"]
SCHED = ["sched_load_avg_sg", "sched_load_avg_task", "sched_load_avg_cpu", "sched_contrib_scale_factor", "cpu_capacity", "sched_wakeup", "sched_wakeup_new",
         "sched_switch", "cpu_frequency", "sched_migrate_task"]
COLON = {"function": "function", "tracing_mark_write": "tracing_mark_write:", "cpu_out_power": "thermal_power_cpu_limit", "cpu_in_power": "thermal_power_cpu_get_power",
         "pid_controller": "thermal_power_allocator_pid", "sys_enter": "sys_enter", "sys_exit": "sys_exit", "cpu_idle": "cpu_idle",
         "funcgraph_entry": "funcgraph_entry", "funcgraph_exit": "funcgraph_exit"}
BUILT = {"thermal": {}, "sched": {}, "all": {}}
for _n in list(tg.BUILTIN) + ["function", "tracing_mark_write"]:
    _s = "thermal" if _n in THERMAL else "sched" if _n in SCHED else "all"
    BUILT[_s][_n] = COLON.get(_n) or tg.BUILTIN[_n][0] + ":"
NEW = [("MyEvent", "my_event", ["my_event:", "my_event", "irq_probe:"]), ("GpuSchedTrace", "gpu_sched_trace", ["gpu_sched_trace:", "drm_vsync_x"]),
       ("FooEvt", "foo_evt", ["foo_evt:", "foo_evt_two:", "foo_e"]), ("LatProbe", "lat_probe", ["lat_probe", "ipi_raise_y:"]), ("Zed", "zed", ["zed_word:", "sched_wak", "u_idle"]),
       ("abcEvent", "abc_event", ["abc_event:"])]
EXPL = tg.USER + ["unknown_ev", "zed_word", "foo_evt_two", "abc_event"]


class Named(Base):
    unique_word = "named_word:"
    name = "own_name"


class Unnamed(Base):
    unique_word = "unnamed_word:"


def near(rng, name):
    k = rng.randrange(6)
    if k == 0:
        return name[:rng.randint(3, max(3, len(name) - 1))]
    if k == 1:
        return name + rng.choice(["_two", "x", "_", "_" + name])
    if k == 2:
        return name.upper()
    if k == 3:
        return name.replace("_", "", 1)
    if k == 4:
        return rng.choice(["my_", "x"]) + name
    return name.rsplit("_", 1)[0]


def case(ctx):
    with registry.preserved():
        try:
            history(ctx)
        finally:
            if "name" in Unnamed.__dict__:
                del Unnamed.name


def history(ctx):
    rng = ctx.rng
    model = {s: dict(d) for s, d in BUILT.items()}     # scope -> name -> unique word
    pivots = {}
    live = []                                          # (class, [scopes], name)
    old = []
    stale = []                                         # (class, name) not registered any more
    ops = []
    # one trace with a line for many words
    layout = tg.gen_layout(rng)
    words = ["my_event", "irq_probe", "gpu_sched_trace", "drm_vsync_x", "foo_evt", "foo_evt_two", "lat_probe", "ipi_raise_y", "zed_word", "unknown_ev", "named_word",
             "unnamed_word", "abc_event"]
    nl = rng.randint(5, 25)
    lines = []
    for t in tg.gen_times(rng, nl):
        if rng.random() < .5:
            lines.append(tg.ev_line(rng, layout, t, rng.choice(sorted(tg.BUILTIN)), comms=tg.SAFE_COMMS))
        else:
            w = rng.choice(words)
            lines.append(tg.mk_line(rng, layout, t, w, w + ": ", "a=%d b=x" % rng.randrange(99), {}, comms=tg.SAFE_COMMS))
    path = ctx.path("trace.txt")
    ctx.keep("trace", tg.write(path, lines))
    texts = [l.text() for l in lines]

    for step in range(rng.randint(4, 12)):
        r = rng.random()
        if r < .3:
            k = rng.random()
            if k < .8:
                cname, name, ws = rng.choice(NEW)
                taken = [s for s, d in model.items() if name in d]
                if taken and (name in BUILT[taken[0]] or rng.random() < .5):
                    continue
                w = rng.choice(ws)
                # an event registered under a name of its scope takes the place of the one that had it
                scope = taken[0] if taken else rng.choice(["all", "sched", "thermal"])
                if taken:
                    for e in live:
                        if e[2] == name:
                            stale.append((e[0], name))
                            e[1].remove(scope)
                    live[:] = [e for e in live if e[1]]
                    ctx.count("names taken over")
                pv = rng.choice([None, None, "a"])
                kw = {}
                if pv:
                    kw["pivot"] = pv
                if scope != "all" or rng.random() < .5:
                    kw["scope"] = scope
                c = trappy.register_dynamic_ftrace(cname, w, **kw)
                ctx.check(c.name == name and c.unique_word == w and getattr(c, "pivot", None) == pv,
                          "registered class has name %r word %r pivot %r" % (c.name, c.unique_word, getattr(c, "pivot", None)), asked=repr((cname, w, kw)))
                pivots[name] = pv
                live.append((c, [scope], name))
                model[scope][name] = w
                ops.append(("register", cname, w, scope))
            else:
                c = rng.choice([Named, Unnamed])
                name = "own_name" if c is Named else "unnamed_word"
                have = [s for (x, ss, _) in live if x is c for s in ss]
                scope = rng.choice([s for s in ("all", "sched", "thermal") if s not in have] or ["all"])
                if scope in have:
                    continue
                if scope == "all" and rng.random() < .5:
                    trappy.register_ftrace_parser(c)
                else:
                    trappy.register_ftrace_parser(c, scope)
                model[scope][name] = c.unique_word
                old_e = [e for e in live if e[0] is c]
                if old_e:
                    old_e[0][1].append(scope)
                else:
                    live.append((c, [scope], name))
                ops.append(("register class", c.__name__, scope))
            ctx.count("registrations")
        elif r < .42 and live:
            c, scopes, name = live.pop(rng.randrange(len(live)))
            rng.choice([trappy.unregister_dynamic_ftrace, trappy.unregister_ftrace_parser])(c)
            for s in scopes:
                del model[s][name]
            ops.append(("unregister", name))
            ctx.count("unregistrations")
            if c is Unnamed:
                del Unnamed.name
            else:
                stale.append((c, name))
        elif r < .46 and stale:
            # one that is not registered any more: nothing happens
            c, name = rng.choice(stale)
            if any(e[0] is c for e in live):
                continue
            rng.choice([trappy.unregister_dynamic_ftrace, trappy.unregister_ftrace_parser])(c)
            ops.append(("unregister again", name, c.unique_word))
            ctx.count("unregistrations of what is not registered")
        else:
            parse(ctx, path, layout, lines, texts, model, pivots, old, ops, live)
        ctx.keep("operations", "\n".join(map(str, ops)))
    if not old:
        parse(ctx, path, layout, lines, texts, model, pivots, old, ops, live)
    for t, fp, names in old:
        ctx.check(trace_fingerprint(t) == fp and sorted(t.get_filters()) == names, "an earlier trace changed")
        ctx.count("earlier traces compared")
    ctx.seen(tuple(map(str, ops)))
    ctx.sample([list(map(str, o)) for o in ops[:6]])


def parse(ctx, path, layout, lines, texts, model, pivots, old, ops, live):
    rng = ctx.rng
    scope = rng.choice(["all", "sched", "thermal", "custom", "custom"])
    every = dict((n, w) for s in ("thermal", "sched", "all") for n, w in model[s].items())
    if scope == "custom":
        want = {}
    elif scope == "all":
        want = dict(every)
    else:
        want = dict(model[scope], **model["all"])
    events = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        k = rng.random()
        if k < .5:
            n = rng.choice(sorted(every) + [l[2] for l in live] * 4)
            w = every[n]
            e = rng.choice([n, w, w.rstrip(":")])
            if e != n:
                ctx.count("explicit by unique word")
        elif k < .75:
            e = rng.choice(EXPL)
        else:
            # names that look like those of others
            e = near(rng, rng.choice(sorted(every)))
            ctx.count("explicit names close to others")
        hits = [n for n, w in every.items() if e in (n, w) or e + ":" == w]
        if len(set(hits)) > 1:
            continue
        events.append(e)
        if hits:
            want[hits[0]] = every[hits[0]]
        else:
            want[e] = e + ":"
            ctx.count("explicit unknown events")
    arg = events
    if len(events) == 1 and rng.random() < .4:
        arg = events[0]
    clash = [(a, b) for a in want for b in want if a < b and (want[a] in want[b] or want[b] in want[a])]
    kw = dict(scope=scope, events=arg, normalize_time=rng.random() < .5)
    ops.append(("parse", repr(kw)))
    ctx.keep("operations", "\n".join(map(str, ops)))
    cls = trappy.SysTrace if rng.random() < .1 else trappy.FTrace
    if cls is trappy.SysTrace:
        path = ctx.path("page.html")
        with open(path, "w") as f:
            f.write("\n".join(st.page(rng, lines, layout, [], noise=False)[0]) + "\n")
        ctx.count("systrace parses")
    before = list(arg) if isinstance(arg, list) else arg
    try:
        t = cls(path, **kw)
    except RuntimeError as e:
        ctx.check(clash, "a parse of events whose unique words do not contain one another was refused: %s" % e, events=want)
        ctx.count("refused parses")
        return
    ctx.check(not clash, "a parse of events whose unique words contain one another (%s) was accepted" % clash[:2], events=want)
    ctx.check(arg == before, "the list of events given was changed")
    names = sorted(want)
    ctx.check(sorted(t.get_filters()) == names, "the tables are %s, expected %s" % (sorted(t.get_filters()), names), asked=repr(kw))
    ctx.check(sorted(t.class_definitions) == names, "class_definitions has %s, expected %s" % (sorted(t.class_definitions), names))
    for n in names:
        ev = getattr(t, n)
        ctx.check(ev.unique_word == want[n] and ev.name == n, "%s has unique word %r and name %r, expected %r" % (n, ev.unique_word, ev.name, want[n]))
        if n in pivots and n in every:
            ctx.check(getattr(ev, "pivot", None) == pivots[n], "%s has pivot %r, registered with %r" % (n, getattr(ev, "pivot", None), pivots[n]))
        k = sum(want[n] in x for x in texts)
        ctx.check(len(ev.data_frame) == k or any(want[n] in x and want[m] in x for x in texts for m in names if m != n), "%s has %d rows for %d lines" % (n, len(ev.data_frame), k))
        if n not in BUILT["all"] and n not in BUILT["sched"] and n not in BUILT["thermal"] and k:
            ctx.count("registered events parsed")
    for n in sorted(set(every) - set(names)) + ["never_heard_of"]:
        if n in [w.rstrip(":") for w in want.values()]:
            continue
        try:
            getattr(t, n)
            ctx.check(False, "the trace has an attribute %r although that event was not selected" % n, asked=repr(kw))
        except AttributeError as e:
            ctx.check("instead" not in str(e), "misleading error for %r: %s" % (n, e))
    for n in names:
        w = want[n].rstrip(":")
        if w != n and w not in names:
            try:
                getattr(t, w)
                ctx.check(False, "the unique word %r works as an attribute" % w)
            except AttributeError as e:
                ctx.check(re.search(r"\b%s\b" % re.escape(n), str(e).replace(w + '"', "")), "the error for %r does not name %r: %s" % (w, n, e))
                ctx.count("wrong attribute errors")
    for key in rng.sample(["", "sched", "^sched_w", "power$", "a|b", "zzz", "_", "thermal", "evt", "."], 3):
        got = t.get_filters(key)
        ctx.check(sorted(got) == [n for n in names if re.search(key, n)], "get_filters(%r) gives %s" % (key, got))
        ctx.count("filters with a key")
    ctx.count("parses compared")
    old.append((t, trace_fingerprint(t), names))
