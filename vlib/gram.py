"""Model of the expression grammar: selection of data, aggregation on the union of times, expressions with their value."""
import math
import numpy as np

NAN = float("nan")
ANY = "any value"        # what a division by zero gives is not compared


class Skip(Exception):
    """The value of the expression is not specified (division of numbers by zero)."""


def missing(v):
    return v is None or (isinstance(v, (float, np.floating)) and math.isnan(v))


class Ev(object):
    """Event of the model: its table as (time, {column: value}) in order of time."""

    def __init__(self, name, rows, pivot):
        self.name, self.rows, self.pivot = name, rows, pivot

    def select(self, window=(0, None), filters=None):
        out = []
        cols = set(self.rows[0][1]) if self.rows else set()
        for t, r in self.rows:
            if t < window[0] or (window[1] is not None and t > window[1]):
                continue
            ok = True
            for c, want in (filters or {}).items():
                if c in cols:
                    ok = ok and r[c] in (want if isinstance(want, list) else [want])
            if ok:
                out.append((t, r))
        return out


class Agg(object):
    """Aggregated data: columns on the union of the times of their events."""

    def __init__(self, method="pad", limit=None, fill=True):
        self.method, self.limit, self.fill = method, limit, fill
        self.times, self.cols = [], {}

    def add(self, key, rows, pivot):
        """rows: selected rows [(time, {})]"""
        if key in self.cols:
            return
        first = not self.cols
        new = sorted(set(self.times) | {t for t, _ in rows})
        groups = {}
        for t, r in rows:
            groups.setdefault(r[pivot] if pivot else "NO_PIVOT", {})[t] = r[key[1]]
        self.cols[key] = {}
        for p, pts in groups.items():
            self.cols[key][p] = dict(pts) if first else self.reindex(pts, new)
        self.times = new
        if self.fill:
            for col in self.cols.values():
                for pts in col.values():
                    last = None
                    for t in self.times:
                        v = pts.get(t)
                        if missing(v):
                            if last is not None:
                                pts[t] = last
                        else:
                            last = v

    def reindex(self, pts, new):
        old = sorted(pts)
        pos = {t: i for i, t in enumerate(new)}
        def near(i, step):
            n, j = 0, i
            while 0 <= j < len(new):
                if new[j] in pts:
                    return new[j]
                n += 1
                if self.limit is not None and n > self.limit:
                    return None
                j += step
            return None
        out = {}
        for i, t in enumerate(new):
            if t in pts:
                out[t] = pts[t]
                continue
            l, r = near(i, -1), near(i, 1)
            if self.method == "pad":
                s = l
            elif self.method == "bfill":
                s = r
            else:
                if l is None or r is None:
                    s = l if r is None else r
                else:
                    s = l if t - l < r - t else r
            if s is not None:
                out[t] = pts[s]
        return out

    def vector(self, key):
        return {p: [NAN if missing(pts.get(t)) else pts[t] for t in self.times] for p, pts in self.cols[key].items()}


# Expressions: (text, value) built bottom up. A value is a number, a bool, a Vec or a Row.

class Vec(object):
    """A column per pivot value, each a list of values over the aggregated times."""
    def __init__(self, cols):
        self.cols = cols


class Row(object):
    """A value per pivot value (what a reduction gives)."""
    def __init__(self, cols):
        self.cols = cols


def f(v):
    return np.float64(v)


def arith(op, a, b):
    """Arithmetic of two numbers as floats."""
    if a is ANY or b is ANY:
        return ANY
    if op in ("/", "//", "%") and b == 0:
        return ANY
    with np.errstate(all="ignore"):
        a, b = f(a), f(b)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            return np.divide(a, b)
        if op == "//":
            return np.floor_divide(a, b)
        if op == "%":
            return np.mod(a, b)
        if op == "**":
            return np.power(a, b)
    raise ValueError(op)


def compare(op, a, b):
    if a is ANY or b is ANY:
        return ANY
    if missing(a) or missing(b):
        return op == "!="
    return {">": lambda: a > b, "<": lambda: a < b, ">=": lambda: a >= b, "<=": lambda: a <= b, "==": lambda: a == b, "!=": lambda: a != b}[op]()


def logic(op, a, b):
    if a is ANY or b is ANY:
        return ANY
    if op in ("&", "&&"):
        return a and b
    return a or b


def apply(fn, op, a, b):
    if isinstance(a, Vec) or isinstance(b, Vec):
        ps = sorted(set(getattr(a, "cols", {})) | set(getattr(b, "cols", {})), key=str)
        n = len(next(iter((a if isinstance(a, Vec) else b).cols.values())))
        get = lambda x, p: x.cols.get(p, [NAN] * n) if isinstance(x, Vec) else [x] * n
        return Vec({p: [fn(op, x, y) for x, y in zip(get(a, p), get(b, p))] for p in ps})
    if isinstance(a, Row) or isinstance(b, Row):
        ps = sorted(set(getattr(a, "cols", {})) | set(getattr(b, "cols", {})), key=str)
        get = lambda x, p: x.cols.get(p, NAN) if isinstance(x, Row) else x
        return Row({p: fn(op, get(a, p), get(b, p)) for p in ps})
    r = fn(op, a, b)
    if r is ANY:
        raise Skip()
    return r


def same(x, y):
    """Equal values of the model and the code (floats up to rounding of the last digits)."""
    if y is ANY:
        return True
    if missing(x) or missing(y):
        return missing(x) and missing(y)
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    x, y = float(x), float(y)
    if math.isinf(x) or math.isinf(y):
        return x == y
    return x == y or abs(x - y) <= 1e-9 * max(abs(x), abs(y))
