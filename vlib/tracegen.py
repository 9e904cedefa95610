"""Models of ftrace traces: generated structure -> text (what trappy reads) and -> expected tables (what it must hold).

A TLine is one event line. Its expected cells come from the structure, never from parsing the text."""
import math

MISSING = "<missing>"          # marker object for an absent field
INT_OR_MISSING0 = "<0 or missing>"

COMMS = ["bash", "<idle>", "<...>", "kworker/1:1H", "rcu_preempt", "rs:main", "AsyncTask #1", "jbd2/sda2-8", "IntentService[",
         r"/system/bin/.s$_?.u- \a]}c\./ef[.12]*[[l]in]ger", "Binder:594_1", "a.out", "123", "x-1", "foo (bar)", "surface flinger", "na",
         "chrome-77", "-", "m=1", "Thread-5", "\u00fcber", "kworker/u16:3-events_unbound", "RenderThread of a very long process name",
         "a  b", "x [1] y", "5.0: z"]
SAFE_COMMS = ["bash", "<idle>", "kworker/1:1H", "rs:main", "AsyncTask #1", "jbd2/sda2-8", "Binder:594_1", "a.out"]

KEYS = ["state", "freq", "val", "addr", "ret", "comm", "prio", "pid", "a", "b1", "x_y", "util", "name", "flags", "mode",
        "Cap", "_u", "9x", "a_rather_long_name_of_a_field_with_2_digits", "cpu", "index", "data", "string", "line", "time"]
WORDS = ["foo", "bar", "some", "[ns]", "x:y", "(1)", "->", "ff", "Z", "12", "0x1", "na\u00efve", "a,b", "a_word_that_is_longer_than_a_task_name", "-", "foo", "7.", ">"]
TEXTS = ["00000006", "1.5", "1e5", "abc", "ffffffc0", "0xzz", "-", "(nil)", "a:b", "1,2", "nan", "NA", "None", "true", "True", "inf",
         "", "null", "S|K", "R+", "0b2", "007", "-007", "08", "1L", "0x", "--1", "N/A", "\"q\"", "'s'", "a\"b", "a,b,c", "#1", "%d", "\u2713",
         "o17", "O17", "b11", "x1f", "1O", "0X", "0b", "0o", "0o9", "0b12", "deadbeef", "+", "1+", "++1", "1.0", "-0x", "1-2", "12:34", "0.5",
         "0x1.8", "1k", "10%", "~1", "!1", "(1", "[1]", "1e", "e1", ".5", "5.", "Infinity", "-inf", "NaN", "NULL", "<NA>", "nil", "TRUE", "False", "yes", "1_", "_1", "1__0",
         "2020-01-01", "0001", "a" * 70, "0x" + "g" * 20, "/dev/null", "C:\\x", "a|b", "a;b", "*", "&", "$x", "`", "^", "@", "?", "\\n", "'", '"', "\"\"", "\u00e9"]


def intlit(rng):
    """(text, value) of an integer literal."""
    k = rng.random()
    if k < .45:
        v = rng.choice([0, 1, 2, 3, 7, 10, 100, 1024, 4294967295, 2 ** 31, 2 ** 53 - 1, rng.randrange(10 ** 6), -1, -rng.randrange(1, 5000)])
        return str(v), v
    if k < .55:
        v = rng.choice([2 ** 63 - 1, -2 ** 63, 2 ** 63, 2 ** 64 - 1, 2 ** 53 + 1, 2 ** 62 + 3, 2 ** 64, -2 ** 63 - 1, 2 ** 31 - 1, 2 ** 32, -2 ** 31, 10 ** 12 + 7, 10 ** 25])
        return str(v), v
    if k < .85:
        v = rng.choice([rng.randrange(256), rng.randrange(2 ** 32), 0xdeadbeef, 0, 2 ** 52 + 1])
        s = ("0x%x" if rng.random() < .7 else "0X%X") % v
        return (s, v) if rng.random() < .9 else ("-" + s, -v)
    if k < .9:
        v = rng.randrange(64)
        return "0b" + bin(v)[2:], v
    if k < .95:
        v = rng.randrange(512)
        return "0o%o" % v, v
    return "+7", 7


def intval(text):
    return int(text)


class Array(list):
    """A field value that is an array of (text, value) elements."""


class TLine(object):
    __slots__ = ("comm", "pid", "cpu", "tgid", "flags", "ts", "event", "word", "data", "cells", "table", "pad", "prefix", "nonl")

    def __init__(self, **kw):
        self.tgid = self.flags = None
        self.pad = 0
        self.prefix = ""
        self.nonl = False
        for k, v in kw.items():
            setattr(self, k, v)

    def text(self):
        t = "%s%s-%d" % (" " * self.pad, self.comm, self.pid)
        if self.tgid is not None:
            t += " (%s)" % self.tgid
        t += " [%03d]" % self.cpu
        if self.flags is not None:
            t += " " + self.flags
        t += " %s: %s%s" % (self.ts, self.prefix, self.word)
        return t + self.data


def ts_value(text):
    return float(text) if "." in text else float(text) / 1e9


def bump_times(texts):
    """The time of each line: the file's value if later than the previous line's, else the next representable number."""
    cur, out = 0.0, []
    for t in texts:
        v = ts_value(t)
        cur = v if v > cur else math.nextafter(cur, math.inf)
        out.append(cur)
    return out


def gen_times(rng, n, style=None, fmt=None):
    """n timestamp texts. style: 'inc', 'ties', 'back', 'mixed'; fmt 'us', 'ns9', 'ns'."""
    style = style or rng.choice(["inc", "inc", "ties", "back", "mixed"])
    fmt = fmt or rng.choice(["us", "us", "ns9", "ns"])
    unit = 1000 if fmt == "us" else 1
    cur = rng.choice([0, 1, 1500, 6550 * 10 ** 6, 99937172659, 10 ** 12, 86400 * 10 ** 6 * 30]) * 1000 + rng.randrange(10 ** 6)
    cur = max(cur, 1)
    if fmt == "us":
        cur = max(1, cur // 1000) * 1000
    out = []
    for _ in range(n):
        out.append(cur)
        r = rng.random()
        if style == "ties" and r < .6 or style == "mixed" and r < .3:
            step = 0
        elif style == "back" and r < .3 or style == "mixed" and r < .15 + .3:
            step = -rng.choice([1, 10, 1000, 10 ** 6])
        else:
            step = rng.choice([1, 1, 2, 10, 137, 1000, 10 ** 5, 10 ** 6])
        cur = max(unit, cur + step * unit)
    if fmt == "us":
        return ["%d.%06d" % (c // 10 ** 9, c % 10 ** 9 // 1000) for c in out]
    if fmt == "ns9":
        return ["%d.%09d" % (c // 10 ** 9, c % 10 ** 9) for c in out]
    return ["%d" % c for c in out]


# ---------------------------------------------------------------- built-in events

def _u(rng, hi=5000):
    return rng.randrange(hi)


def kv(pairs):
    return " ".join("%s=%s" % (k, v) for k, v in pairs), {k: v for k, v in pairs}


def mask(rng):
    return rng.choice(["%08x" % rng.randrange(1, 256), "00000000,%08x" % rng.randrange(1, 256), "0000000f", "000000f0"])


def e_thermal(rng):
    t, c = kv([("thermal_zone", rng.choice(["exynos-therm", "soc", "cpu zone"])), ("id", _u(rng, 3)), ("temp_prev", _u(rng, 90000)), ("temp", _u(rng, 90000))])
    return t, c


def e_gov(rng):
    n = 3
    req = [_u(rng) for _ in range(n)]
    gr = [_u(rng) for _ in range(n)]
    c = {"thermal_zone_id": 0, "total_req_power": sum(req), "current_temperature": _u(rng, 90000), "delta_temperature": _u(rng) - 2500}
    t = "thermal_zone_id=0 req_power={%s} total_req_power=%d granted_power={%s} current_temperature=%d delta_temperature=%d" % (
        " ".join(map(str, req)), sum(req), " ".join(map(str, gr)), c["current_temperature"], c["delta_temperature"])
    c.update({"req_power%d" % i: v for i, v in enumerate(req)})
    c.update({"granted_power%d" % i: v for i, v in enumerate(gr)})
    return t, c


def e_outp(rng):
    m = rng.choice(["00000000,00000006", "0000000f,00000000", "a000000f", "000000ff,0"])
    return kv([("cpus", m), ("freq", _u(rng, 2000000)), ("cdev_state", _u(rng, 9)), ("power", _u(rng))])


def e_inp(rng):
    m = rng.choice(["00000000,00000006", "0000000f,00000000"])
    ld = [_u(rng, 101) for _ in range(4)]
    c = {"cpus": m, "freq": _u(rng, 2000000), "dynamic_power": _u(rng)}
    t = "cpus=%s freq=%d load={%s} dynamic_power=%d" % (m, c["freq"], " ".join(map(str, ld)), c["dynamic_power"])
    c.update({"load%d" % i: v for i, v in enumerate(ld)})
    return t, c


def e_pid(rng):
    return kv([("thermal_zone_id", 0), ("err", _u(rng) - 2500), ("err_integral", _u(rng)), ("p", _u(rng)), ("i", _u(rng)), ("d", 0), ("output", _u(rng))])


def e_dfin(rng):
    return kv([("type", "devfreq"), ("freq", _u(rng, 600) * 1000000), ("load", _u(rng, 101)), ("dynamic_power", _u(rng)), ("static_power", _u(rng))])


def e_dfout(rng):
    return kv([("type", "devfreq"), ("freq", _u(rng, 600) * 1000000), ("cdev_state", _u(rng, 5)), ("power", _u(rng))])


def e_lasg(rng):
    # masks are decoded as 8 digit zero padded text whatever their length in the trace
    m = rng.choice(["00000002", "0000000f", "f", "10", "%x" % rng.randrange(1, 2 ** 31)])
    t, c = kv([("cpus", m), ("load", _u(rng)), ("utilization", _u(rng))])
    c["cpus"] = (m if not _isint(m) else str(int(m, 0))).rjust(8, "0")
    return t, c


def _isint(s):
    try:
        int(s, 0)
        return True
    except ValueError:
        return False


def e_latask(rng):
    return kv([("comm", rng.choice(["sshd", "sshd: user", "rcuos/0"])), ("pid", _u(rng)), ("cpu", _u(rng, 8)), ("load", _u(rng)), ("util_avg", _u(rng, 1025))])


def e_lacpu(rng):
    return kv([("cpu", _u(rng, 8)), ("load", _u(rng)), ("utilization", _u(rng, 1025))])


def e_contrib(rng):
    return kv([("cpu", _u(rng, 8)), ("cpu_scale_factor", _u(rng, 1025)), ("freq_scale_factor", _u(rng, 1025))])


def e_cap(rng, form=1):     # one trace uses one form only
    v, s = _u(rng, 1025), _u(rng, 8)
    return "%s=%d cpu_id=%d" % ("state" if form else "capacity", v, s), {"capacity": v, "cpu": s}


def e_freq(rng, form=1):
    v, s = _u(rng, 2000000), _u(rng, 8)
    return "%s=%d cpu_id=%d" % ("state" if form else "frequency", v, s), {"frequency": v, "cpu": s}


def e_wakeup(rng):
    return kv([("comm", rng.choice(["rcu_preempt", "sh", "my task", "bash-1"])), ("pid", _u(rng)), ("prio", _u(rng, 140)), ("success", 1), ("target_cpu", _u(rng, 8))])


def e_switch(rng):
    pc, nc = rng.choice(["swapper/0", "sshd", "my task", "a b c"]), rng.choice(["swapper/1", "rcuos/2", "trace cmd", "x"])
    c = {"prev_comm": pc, "prev_pid": _u(rng), "prev_prio": _u(rng, 140), "prev_state": rng.choice([0, 1, 2, "S", "R+", "D|K"]),
         "next_comm": nc, "next_pid": _u(rng), "next_prio": _u(rng, 140)}
    t = "prev_comm=%s prev_pid=%d prev_prio=%d prev_state=%s%snext_comm=%s next_pid=%d next_prio=%d" % (
        pc, c["prev_pid"], c["prev_prio"], c["prev_state"], rng.choice([" ==> ", " ==> ", " "]), nc, c["next_pid"], c["next_prio"])
    return t, c


def e_migrate(rng):
    return kv([("comm", "task x"), ("pid", _u(rng)), ("prio", 120), ("orig_cpu", _u(rng, 8)), ("dest_cpu", _u(rng, 8))])


def e_sysenter(rng):
    a = [rng.choice([0, 1, 0x7764ee9000, 0xffffffffffffffff >> 2, rng.randrange(2 ** 40), 0x103, 0xffffffffffffff9c, rng.randrange(2 ** 64), rng.randrange(2 ** 32), 10, 16])
         for _ in range(6)]
    nr = _u(rng, rng.choice([10, 450, 10 ** 6]))
    c = {"nr": nr}
    c.update({"arg%d" % i: v for i, v in enumerate(a)})
    return "NR %d (%s)" % (nr, ", ".join("%x" % v for v in a)), c


def e_sysexit(rng):
    nr, ret = _u(rng, rng.choice([10, 450, 10 ** 6])), rng.choice([0, 1, -1, -11, 4096, 2 ** 40, 2 ** 63 - 1, -2 ** 63, 2 ** 48 - 4096, -4095])
    return "NR %d = %d" % (nr, ret), {"nr": nr, "ret": ret}


def e_idle(rng):
    s = rng.choice([4294967295, 0, 1, 2])
    c = _u(rng, 8)
    return "state=%d cpu_id=%d" % (s, c), {"state": -1 if s == 4294967295 else s, "cpu_id": c}


CLKS = ["gcc_clk", "video_subcore0_clk_src", "clk", "a.b-c", "pll_15", "PLL0", "19200000", "xo-board", "soc:clk@0"]


def e_clk(rng):
    n, s, c = rng.choice(CLKS), rng.choice([0, 1]), _u(rng, 8)
    return "%s state=%d cpu_id=%d" % (n, s, c), {"clk_name": n, "state": s, "cpu_id": c}


def e_clkrate(rng):
    n, s, c = rng.choice(CLKS), _u(rng, 2 * 10 ** 9), _u(rng, 8)
    return "%s state=%d cpu_id=%d" % (n, s, c), {"clk_name": n, "rate": s, "cpu_id": c}


def _ext4(rng, fields):
    vals = [("dev", "%d,%d" % (_u(rng, 260), _u(rng, 20))), ("ino", str(_u(rng, 10 ** 7)))] + [(f, str(_u(rng, 10 ** 6))) for f in fields]
    c = {("inode" if k == "ino" else k): v for k, v in vals}
    return " ".join("%s %s" % kvp for kvp in vals) + rng.choice(["", " "]), c


def e_ext4b(rng):
    return _ext4(rng, ["pos", "len", "flags"])


def e_ext4e(rng):
    return _ext4(rng, ["pos", "len", "copied"])


def e_ext4se(rng):
    return _ext4(rng, ["parent", "datasync"])


def e_ext4sx(rng):
    return _ext4(rng, ["ret"])


def _f2fs(rng, fields):
    vals = [("dev", "(%d,%d)" % (_u(rng, 260), _u(rng, 20))), ("ino", _u(rng, 10 ** 6))] + fields
    c = {}
    parts = []
    for k, v in vals:
        if k == "checkpoint":
            parts.append("checkpoint is " + v)
            c[k] = v
        elif k == "dev":
            parts.append("dev = " + v)
            c[k] = v
        elif isinstance(v, tuple):
            parts.append("%s = %s" % (k, v[0]))
            c[k] = v[1]
        else:
            parts.append("%s = %d" % (k, v))
            c["inode" if k == "ino" else k] = v
    return ", ".join(parts), c


def e_f2b(rng):
    return _f2fs(rng, [("pos", _u(rng, 10 ** 9)), ("len", _u(rng)), ("flags", _u(rng, 4))])


def e_f2e(rng):
    return _f2fs(rng, [("pos", _u(rng, 10 ** 9)), ("len", _u(rng)), ("copied", _u(rng))])


def e_f2se(rng):
    m = _u(rng, 65536)
    return _f2fs(rng, [("pino", _u(rng)), ("i_mode", ("0x%x" % m, m)), ("i_size", _u(rng, 10 ** 9)), ("i_nlink", 1), ("i_blocks", _u(rng)), ("i_advise", ("0x0", 0))])


def e_f2sx(rng):
    return _f2fs(rng, [("checkpoint", rng.choice(["is needed", "not needed", "needed"]).replace("is ", "")), ("datasync", _u(rng, 2)), ("ret", _u(rng, 3))])


def e_func(rng):
    return "ip=0x%x parent_ip=0x%x" % (1, 2), {"ip": 1, "parent_ip": 2}


def e_fge(rng):
    return kv([("func", rng.randrange(2 ** 40)), ("depth", _u(rng, 9))])


# attribute name on the trace -> (word in the trace, generator, scope)
BUILTIN = {
    "thermal": ("thermal_temperature", e_thermal, "thermal"),
    "thermal_governor": ("thermal_power_allocator", e_gov, "thermal"),
    "cpu_out_power": ("thermal_power_cpu_limit", e_outp, "thermal"),
    "cpu_in_power": ("thermal_power_cpu_get_power", e_inp, "thermal"),
    "pid_controller": ("thermal_power_allocator_pid", e_pid, "thermal"),
    "devfreq_in_power": ("thermal_power_devfreq_get_power", e_dfin, "thermal"),
    "devfreq_out_power": ("thermal_power_devfreq_limit", e_dfout, "thermal"),
    "sched_load_avg_sg": ("sched_load_avg_sg", e_lasg, "sched"),
    "sched_load_avg_task": ("sched_load_avg_task", e_latask, "sched"),
    "sched_load_avg_cpu": ("sched_load_avg_cpu", e_lacpu, "sched"),
    "sched_contrib_scale_factor": ("sched_contrib_scale_f", e_contrib, "sched"),
    "cpu_capacity": ("cpu_capacity", e_cap, "sched"),
    "sched_wakeup": ("sched_wakeup", e_wakeup, "sched"),
    "sched_wakeup_new": ("sched_wakeup_new", e_wakeup, "sched"),
    "sched_switch": ("sched_switch", e_switch, "sched"),
    "cpu_frequency": ("cpu_frequency", e_freq, "sched"),
    "sched_migrate_task": ("sched_migrate_task", e_migrate, "sched"),
    "sys_enter": ("sys_enter", e_sysenter, "all"),
    "sys_exit": ("sys_exit", e_sysexit, "all"),
    "cpu_idle": ("cpu_idle", e_idle, "all"),
    "clock_enable": ("clock_enable", e_clk, "all"),
    "clock_disable": ("clock_disable", e_clk, "all"),
    "clock_set_rate": ("clock_set_rate", e_clkrate, "all"),
    "funcgraph_entry": ("funcgraph_entry", e_fge, "all"),
    "funcgraph_exit": ("funcgraph_exit", e_fge, "all"),
    "ext4_da_write_begin": ("ext4_da_write_begin", e_ext4b, "all"),
    "ext4_da_write_end": ("ext4_da_write_end", e_ext4e, "all"),
    "ext4_sync_file_enter": ("ext4_sync_file_enter", e_ext4se, "all"),
    "ext4_sync_file_exit": ("ext4_sync_file_exit", e_ext4sx, "all"),
    "f2fs_write_begin": ("f2fs_write_begin", e_f2b, "all"),
    "f2fs_write_end": ("f2fs_write_end", e_f2e, "all"),
    "f2fs_sync_file_enter": ("f2fs_sync_file_enter", e_f2se, "all"),
    "f2fs_sync_file_exit": ("f2fs_sync_file_exit", e_f2sx, "all"),
}
UNIQUE_WORD = {"cpu_out_power": "thermal_power_cpu_limit", "cpu_in_power": "thermal_power_cpu_get_power",
               "pid_controller": "thermal_power_allocator_pid", "sys_enter": "sys_enter", "sys_exit": "sys_exit",
               "cpu_idle": "cpu_idle", "funcgraph_entry": "funcgraph_entry", "funcgraph_exit": "funcgraph_exit"}
# built-in events whose payload is plain key=value fields without special decoding
PLAIN = ["thermal", "pid_controller", "cpu_out_power", "devfreq_in_power", "devfreq_out_power", "sched_load_avg_task", "sched_load_avg_cpu",
         "sched_contrib_scale_factor", "sched_wakeup", "sched_wakeup_new", "sched_switch", "sched_migrate_task", "funcgraph_entry"]
SCOPES = ["all", "thermal", "sched", "custom"]


def in_scope(name, scope):
    s = BUILTIN[name][2] if name in BUILTIN else "all"
    if scope == "all":
        return True
    if scope == "custom":
        return False
    return s == scope or s == "all"


# user events, none of whose names contains another known word
USER = ["my_event", "gpu_sched_trace", "irq_probe", "foo_evt", "drm_vsync_x", "lat_probe", "ipi_raise_y"]


def gen_fields(rng, keys=None, nmax=5, arrays=True, words=True):
    """A list of (key, text, expected, kind); expected is int, str or Array. None of the texts contains a known word."""
    keys = list(keys or KEYS)
    rng.shuffle(keys)
    out = []
    for k in keys[:rng.randint(1, nmax)]:
        r = rng.random()
        if r < .45:
            t, v = intlit(rng)
            unit = " [ns]" if words and rng.random() < .1 else ""
            out.append((k, t + unit, v))
        elif r < .72 or not arrays:
            t = rng.choice(TEXTS)
            if words and t and rng.random() < .35:
                t = " ".join([t] + [rng.choice(WORDS) for _ in range(rng.randint(1, 3))])
            elif rng.random() < .15:
                t = rng.choice(["foo=bar", "1=2", "x=y=z", "=", "1foo=2", "=="])
            out.append((k, t, t))
        elif r < .95:
            els = [intlit(rng) if rng.random() < .8 else (("abc", "abc"))for _ in range(rng.randint(1, 5))]
            out.append((k, "{%s}" % " ".join(e[0] for e in els), Array(els)))
        else:
            out.append((k, "{}", Array()))
    return out


def fields_text(fields):
    return " ".join("%s=%s" % (k, t) for k, t, _ in fields)


def fields_cells(fields):
    """Expected cells except array padding (done over all rows by expand_arrays)."""
    return {k: v for k, _, v in fields}


def expand_arrays(rows):
    """rows: list of cell dicts with Array values -> dicts with key0.. cells, padded with 0 to the longest of that name."""
    longest = {}
    for r in rows:
        for k, v in r.items():
            if isinstance(v, Array):
                longest[k] = max(longest.get(k, 0), len(v))
    out = []
    for r in rows:
        d = {}
        for k, v in r.items():
            if isinstance(v, Array):
                for i in range(longest[k]):
                    if len(v) == 0:
                        d["%s%d" % (k, i)] = INT_OR_MISSING0
                    else:
                        d["%s%d" % (k, i)] = v[i][1] if i < len(v) else 0
            else:
                d[k] = v
        out.append(d)
    return out


def gen_task(rng, comms=COMMS):
    return dict(comm=rng.choice(comms), pid=rng.choice([0, 1, 7, 1234, 29016, 4194303, rng.randrange(32768), 2 ** 31 - 1]), cpu=rng.choice([0, 1, 2, 3, 5, 7, 15, 101, 10, 1023]))


def gen_layout(rng):
    """Column layout shared by the lines of a trace."""
    return dict(tgid=rng.random() < .25, flags=rng.random() < .4)


def mk_line(rng, layout, ts, table, word, data, cells, comms=COMMS, **kw):
    t = gen_task(rng, comms)
    tg = None
    if layout["tgid"]:
        tg = rng.choice(["-----", "  594", "    1", "12345"])
    fl = rng.choice(["d..2", "....", "d.h3", ".N.1", "dNh4"]) if layout["flags"] else None
    return TLine(ts=ts, table=table, word=word, event=word, data=data, cells=cells, tgid=tg, flags=fl, pad=rng.choice([0, 1, 5, 10]), **dict(t, **kw))


def ev_line(rng, layout, ts, name, **kw):
    """A line of a built-in event or (for other names) of a user event with generic fields."""
    if name in BUILTIN:
        word, gen, _ = BUILTIN[name]
        text, cells = gen(rng)
    else:
        word = name
        f = gen_fields(rng, arrays=False)
        text, cells = fields_text(f), fields_cells(f)
    return mk_line(rng, layout, ts, name, word + ":" + " " * rng.choice([1, 1, 8]), text, cells, **kw)


HEADERS = [[], ["version = 6"], ["version = 6", "cpus=8"], ["cpus=4"], ["# tracer: nop", "#", "#           TASK-PID    CPU#   TIMESTAMP  FUNCTION"],
           ["", "trace-cmd report", "version = 7", "CPU 0 is empty", "cpus=6"]]


def write(path, lines, header=(), final_newline=True):
    txt = "\n".join(list(header) + [l if isinstance(l, str) else l.text() for l in lines])
    if final_newline and (lines or header):
        txt += "\n"
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(txt)
    return txt
