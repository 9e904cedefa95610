"""Systrace pages around generated trace lines, and user-space markers."""
from . import tracegen as tg

MARK_TEXTS = ["hello world", "Hello world", "TRACE_MARKER_START", "B", "say \"hi\"", "a=1 b=2", "123", "1e5", "NA", "nan", "x|y", "BC|12|foo", "b|12|foo", "B|x|foo",
              "B|", "E ", "trace_event_clock_sync", "\u2713 ok", "Aa|1|b", "007", "None", "null"]


def marker(rng):
    """(text, expected cells)"""
    t, c = _marker(rng)
    if "event" in c:
        for k in ("pid", "func", "data"):
            c.setdefault(k, tg.MISSING)
    return t, c


def _marker(rng):
    r = rng.random()
    pid = rng.choice([0, 1, 594, 7459, 32767])
    func = rng.choice(["notifyFramePending", "HW_VSYNC_0", "a b c", "", "x=1", "foo(bar)", "1e5", "NA", " lead", "</script> x", "\t", "é", "a  b", "<!-- END TRACE -->"])
    if r < .3:
        func = func.rstrip()
        return "B|%d|%s" % (pid, func), dict(event="B", pid=pid, func=func)
    if r < .45:
        return "E", dict(event="E")
    if r < .65:
        func = rng.choice([func, " vsync ", "x "])
        v = rng.choice(["0", "1", "007", "-5", "a|b", "", "x y"])
        return "C|%d|%s|%s" % (pid, func, v), dict(event="C", pid=pid, func=func, data=v)
    if r < .75:
        e = rng.choice("SFGX")
        return "%s|%d|%s|%s" % (e, pid, func, "42"), dict(event=e, pid=pid, func=func, data="42")
    if r < .8:
        return "E|%d" % pid, dict(event="E", pid=pid)
    t = rng.choice(MARK_TEXTS).rstrip()
    if t in ("B", "E"):
        return t, dict(event=t)
    return t, dict(string=t)


HEADER = ["# tracer: nop", "#", "# entries-in-buffer/entries-written: 71906/71906   #P:6", "#           TASK-PID    TGID   CPU#  ||||    TIMESTAMP  FUNCTION",
          "#              | |        |      |   ||||       |         |"]


def decoys(rng, layout, n, names):
    return [tg.ev_line(rng, layout, "%d.%06d" % (rng.randrange(10 ** 5), rng.randrange(10 ** 6)), rng.choice(names), comms=tg.SAFE_COMMS).text() for _ in range(n)]


def page(rng, lines, layout, names, legacy=None, header=True, noise=True):
    """The lines of an HTML page whose trace section holds the given lines; decoy event lines outside the section."""
    legacy = rng.random() < .4 if legacy is None else legacy
    out = ["<!DOCTYPE html>", "<html>", "#", "# Remove HTML content..."]
    if noise:
        out += decoys(rng, layout, rng.choice([0, 1, 3]), names)
    out += ["  <script>", "  window.addEventListener('load', onLoad);", "  </script>"]
    if legacy:
        out += ["<title>Android System Trace</title>", "</head>", "<body>"]
        if noise:
            out += decoys(rng, layout, rng.choice([0, 1, 3]), names)
        if rng.random() < .5:
            out += ["  <script>", "  var x = 1;", "  </script>"]
        out += ["  <script>", "  var linuxPerfData = \"\\"]
    else:
        out += ["<!-- BEGIN TRACE -->"]
        if rng.random() < .3:
            out += [rng.choice(["<style>[class=\"trace-data\"] { display: none }</style>", "  <!-- <script class=\"trace-data\"> -->", "  // var linuxPerfData", "<script class=\"other\" id=\"trace-data\">"])]
        if noise and rng.random() < .4:
            out += decoys(rng, layout, 1, names)
        out += ["  <script class=\"trace-data\" type=\"application/text\">"]
    if header:
        out += HEADER
    start = len(out)
    out += [l if isinstance(l, str) else l.text() for l in lines]
    out += ["  </script>"]
    if noise:
        if rng.random() < .5:
            out += ["  <script class=\"trace-data\" type=\"application/text\">"]
        out += decoys(rng, layout, rng.choice([0, 1, 4]), names)
        if rng.random() < .3:
            out += ["  </script>"] + decoys(rng, layout, 1, names)
    out += ["<!-- END TRACE -->"] if not legacy else []
    out += ["</body>", "</html>"]
    return out, start
