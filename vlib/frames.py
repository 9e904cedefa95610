"""Comparing tables with expectations, and with each other."""
import math
import numpy as np
import pandas as pd
from .tracegen import MISSING, INT_OR_MISSING0, expand_arrays

SPECIAL = ("__comm", "__pid", "__cpu", "__line")


def is_missing(v):
    return v is None or (isinstance(v, (float, np.floating)) and math.isnan(v)) or v is pd.NaT or v is pd.NA


def cell_ok(v, e, complete):
    """Does cell v hold e? complete: every row has an integer in this column (then it must not be a float)."""
    if e is MISSING or (isinstance(e, str) and e == MISSING):
        return is_missing(v)
    if isinstance(e, str) and e == INT_OR_MISSING0:
        return is_missing(v) or (not isinstance(v, str) and v == 0)
    if isinstance(e, bool) or isinstance(e, float):
        return not isinstance(v, str) and v == e
    if isinstance(e, int):
        if isinstance(v, (bool, np.bool_)) or isinstance(v, str) or is_missing(v):
            return False
        if isinstance(v, (float, np.floating)):
            return not complete and v == float(e)
        return isinstance(v, (int, np.integer)) and int(v) == e
    return isinstance(v, str) and v == e


def check_rows(ctx, df, lines, times, positions, what, check_line=True, mech=None):
    """The table df holds exactly these lines (TLine, already in order), at these times and positions."""
    rows = expand_arrays([dict(l.cells) for l in lines])
    for r, l, pos in zip(rows, lines, positions):
        r["__comm"], r["__pid"], r["__cpu"] = l.comm, l.pid, l.cpu
        if check_line:
            r["__line"] = pos
    check_table(ctx, df, rows, times, what, ignore=() if check_line else ("__line",), mech=mech,
                texts=[l.text() for l in lines])


def check_table(ctx, df, rows, times, what, ignore=(), mech=None, texts=None):
    ctx.check(len(df) == len(rows), "%s: %d rows, expected %d" % (what, len(df), len(rows)), mech,
              table=df.to_string()[:3000] if len(df) else "empty", lines="\n".join(texts or [])[:3000])
    if not rows:
        return
    cols = []
    for r in rows:
        for k in r:
            if k not in cols:
                cols.append(k)
    have = [c for c in df.columns if c not in ignore]
    optional = [c for c in cols if all(r.get(c, MISSING) in (MISSING, INT_OR_MISSING0) for r in rows)]
    need = [c for c in cols if c not in optional]
    ctx.check(set(need) <= set(have) <= set(cols) and len(set(have)) == len(have), "%s: columns %s, expected %s" % (what, sorted(have), sorted(cols)), mech,
              lines="\n".join(texts or [])[:3000])
    if times is not None:
        got = [float(x) for x in df.index]
        ctx.check(got == list(times), "%s: index %r, expected %r" % (what, got[:20], list(times)[:20]), mech,
                  lines="\n".join(texts or [])[:3000])
    for c in cols:
        if c not in have:
            continue
        vals = df[c].tolist()
        exp = [r.get(c, MISSING) for r in rows]
        complete = all(isinstance(e, int) for e in exp)
        for i, (v, e) in enumerate(zip(vals, exp)):
            if not cell_ok(v, e, complete):
                ctx.check(False, "%s: row %d column %r holds %r (%s), expected %r" % (what, i, c, v, type(v).__name__, e), mech,
                          line=texts[i] if texts else "")
        ctx.count("cells compared", len(vals))


def fingerprint(df):
    """Everything observable of a table, hashable."""
    return (tuple(map(str, df.columns)), tuple(str(t) for t in df.dtypes), df.index.name,
            tuple(_fp(x) for x in df.index), tuple(tuple(_fp(x) for x in df.iloc[:, j].tolist()) for j in range(df.shape[1])))


def _fp(x):
    if is_missing(x):
        return "<nan>"
    return (type(x).__name__ if not isinstance(x, (int, float, np.integer, np.floating)) else "n", repr(x))


def same_table(a, b, exact_index=True):
    """None if the tables hold the same rows, columns, times and values (column order aside), else a description."""
    if len(a) != len(b):
        return "%d rows against %d" % (len(a), len(b))
    if len(a) == 0:
        return None
    if set(a.columns) != set(b.columns):
        return "columns %s against %s" % (sorted(map(str, a.columns)), sorted(map(str, b.columns)))
    ia, ib = [float(x) for x in a.index], [float(x) for x in b.index]
    if ia != ib:
        k = [i for i in range(len(ia)) if ia[i] != ib[i]][0]
        return "time of row %d is %r against %r" % (k, ia[k], ib[k])
    for c in a.columns:
        if a[c].dtype.kind != b[c].dtype.kind:
            return "column %r has the type %s against %s" % (c, a[c].dtype, b[c].dtype)
        for i, (x, y) in enumerate(zip(a[c].tolist(), b[c].tolist())):
            if not same_value(x, y):
                return "column %r row %d: %r (%s) against %r (%s)" % (c, i, x, type(x).__name__, y, type(y).__name__)
    return None


def same_value(x, y):
    mx, my = is_missing(x), is_missing(y)
    if mx or my:
        return mx and my and (x is None) == (y is None)
    if isinstance(x, str) != isinstance(y, str):
        return False
    try:
        return bool(x == y)
    except (TypeError, ValueError):
        return False


def same_trace(a, b):
    """None if two trace objects hold the same, else a description."""
    na, nb = sorted(a.class_definitions), sorted(b.class_definitions)
    if na != nb:
        return "events %s against %s" % (na, nb)
    for n in na:
        d = same_table(getattr(a, n).data_frame, getattr(b, n).data_frame)
        if d:
            return "%s: %s" % (n, d)
    for k in ("basetime", "endtime"):
        x, y = getattr(a, k), getattr(b, k)
        if float(x) != float(y):
            return "%s %r against %r" % (k, x, y)
    for k in ("_version", "_cpus"):
        x, y = [o.__dict__.get(k, "no such attribute") for o in (a, b)]
        if not (is_missing(x) and is_missing(y)) and x != y:
            return "%s %r against %r" % (k, x, y)
    if float(a.get_duration()) != float(b.get_duration()):
        return "duration %r against %r" % (a.get_duration(), b.get_duration())
    return None


def trace_fingerprint(t):
    return tuple((n, fingerprint(getattr(t, n).data_frame)) for n in sorted(t.class_definitions))
