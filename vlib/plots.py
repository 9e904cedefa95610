"""Generated inputs of the plotters, and the series that they select."""
import pandas as pd

NAMES = ["", "", "first", "run 2", "x:y", "first"]
PIVOTS = {
    "int": [0, 1, 2, 10, 3, -1],
    "digits": ["2", "10", "1", "33"],
    "hex": ["0f", "a0", "3", "10", "ff", "1ffffffff", "f00000000", "00fe", "0A1", "ffffffffffffffff"],
    "text": ["big", "little", "GPU", "a b", "zz"],
}


def natural(vals):
    """The order of pivot values: decimal numbers, else hexadecimal ones, else their own."""
    vals = list(vals)
    for key in (lambda v: int(v), lambda v: int(v, 16)):
        try:
            return sorted(vals, key=key)
        except (ValueError, TypeError):
            pass
    return sorted(vals)


def table(rng, kinds, n=None, ints=None, drop=.15, name="Time"):
    """A table with numbers x, y, z, pivots p, q and filter columns f, g; kinds gives the type of the pivots."""
    n = rng.choice([1, 2, 3, 5, 8, 13, 30]) if n is None else n
    ints = rng.random() < .15 if ints is None else ints
    style = rng.choice(["distinct", "distinct", "duplicates"])
    t, times = (rng.choice([0, 3]) if ints else rng.choice([0.0, 0.5, 1234.25])), []
    for _ in range(n):
        times.append(t)
        if style == "distinct" or rng.random() < .6:
            t = t + (rng.randint(1, 4) if ints else rng.choice([.25, 1e-6, 1.0, .1, 2.5]))
    cols = {"x": [rng.randint(0, 50) for _ in range(n)], "y": [rng.randint(-9, 9) / 4. for _ in range(n)], "z": [rng.random() for _ in range(n)]}
    for p in "pq":
        vals = rng.sample(PIVOTS[kinds[p]], rng.randint(1, min(4, len(PIVOTS[kinds[p]]))))
        cols[p] = [rng.choice(vals) for _ in range(n)]
    cols["f"] = [rng.randint(0, 3) for _ in range(n)]
    cols["g"] = [rng.choice(["on", "off", "idle"]) for _ in range(n)]
    for c in ("y", "z", "p", "q", "f", "g"):
        if rng.random() < drop:
            del cols[c]
    order = sorted(cols)
    rng.shuffle(order)
    return pd.DataFrame({c: cols[c] for c in order}, index=pd.Index(times, name=name))


class Expected(object):
    """A constraint: where its data is from, how it is labelled, and the samples for each pivot value."""
    def __init__(self, src, src_name, event, column, index):
        self.src, self.event, self.column, self.index = src, event, column, index
        self.signal = column if event is None else event + ":" + column
        self.label = (src_name or "Trace %d" % index if event is not None else "DataFrame %d" % index)
        self.title = self.label + ":" + self.signal
        self.series = {}


def select(df, column, pivot, filters, window, default):
    """{pivot value: [(time, value)]} of the rows selected from a table."""
    rows = [dict(zip(df.columns, r), __t=t) for t, r in zip(df.index.tolist(), zip(*[df[c].tolist() for c in df.columns]))]
    if window:
        lo, hi = window
        a = [r["__t"] for r in rows if r["__t"] <= lo]
        b = [r["__t"] for r in rows if r["__t"] >= hi]
        rows = [r for r in rows if (not a or r["__t"] >= max(a)) and (not b or r["__t"] <= min(b))]
    out = {}
    if column not in df.columns or (pivot is not None and pivot not in df.columns):
        return out
    for r in rows:
        if any(k in df.columns and r[k] not in allowed for k, allowed in filters.items()):
            continue
        out.setdefault(default if pivot is None else r[pivot], []).append((r["__t"], r[column]))
    return out


class Gen(object):
    """One set of arguments of a plotter."""
    def __init__(self, rng, default, permute=None, numeric=("x", "y", "z"), filters=True, drop=.15, ndup=True):
        self.rng, self.default = rng, default
        self.kinds = dict(p=rng.choice(list(PIVOTS)), q=rng.choice(list(PIVOTS)))
        self.permute = rng.random() < .3 if permute is None else permute
        self.frames = rng.random() < .45
        nsrc = rng.choice([1, 1, 1, 2, 2, 3])
        ncol = rng.choice([1, 1, 2, 2, 3])
        if nsrc > 1 and ncol > 1:
            ncol = nsrc
        elif nsrc == 1 and rng.random() < .12:
            ncol = rng.choice([4, 5, 7])
        self.nsrc, self.ncol = nsrc, ncol
        self.columns = [rng.choice(numeric) for _ in range(ncol)]
        self.pivot = rng.choice([None, "p", "p", "q"])
        self.events = [None] * ncol if self.frames else [rng.choice(["ev_a", "ev_b"]) for _ in range(ncol)]
        self.filters = {}
        if filters and rng.random() < .5:
            for c in rng.sample(["f", "g", "p", "nowhere"], rng.choice([1, 1, 2])):
                pool = {"f": [0, 1, 2, 3, 9], "g": ["on", "off", "idle", "none"], "nowhere": [1]}.get(c) or PIVOTS[self.kinds[c]]
                self.filters[c] = rng.sample(pool, rng.randint(1, min(3, len(pool))))
                if rng.random() < .12:
                    # a value of another type that only looks alike selects nothing
                    v = self.filters[c][0]
                    self.filters[c][0] = str(v) if not isinstance(v, str) else int(v) if v.isdigit() else v.upper()
        ints = rng.random() < .15
        self.names, self.sources, self.tables = [], [], []
        for s in range(nsrc):
            if self.frames:
                df = table(rng, self.kinds, ints=ints, drop=drop)
                self.sources.append(df)
                self.tables.append({None: df})
                self.names.append(None)
            else:
                import trappy
                name = rng.choice(NAMES)
                t = trappy.BareTrace(name=name)
                tabs = {}
                for e in ("ev_a", "ev_b"):
                    tabs[e] = table(rng, self.kinds, ints=ints, drop=drop)
                    t.add_parsed_event(e, tabs[e], pivot=rng.choice([None, "p"]))
                self.sources.append(t)
                self.tables.append(tabs)
                self.names.append(name)
        if nsrc > 1 and rng.random() < .1:
            # the same source twice
            self.sources[-1], self.tables[-1], self.names[-1] = self.sources[0], self.tables[0], self.names[0]
        self.window = None

    def templates(self):
        if self.frames:
            return None
        return [self.cls(e) for e in self.events]

    def cls(self, e):
        t = self.sources[0]
        c = t.class_definitions[e]
        return c if self.rng.random() < .5 else getattr(t, e)

    def args(self):
        """(traces, templates, column) as a user would give them, single values not always as lists."""
        rng = self.rng
        one = lambda l: l[0] if len(l) == 1 and rng.random() < .6 else list(l)
        tm = self.templates()
        cols, tms = list(self.columns), tm
        n = len(cols)
        if tm is not None and n > 1 and rng.random() < .5:
            # what is the same for all needs to be given only once
            if len(set(self.events)) == 1:
                tms = tm[:1]
            elif len(set(cols)) == 1:
                cols = cols[:1]
        return one(self.sources), None if tms is None else one(tms), one(cols)

    def signals(self, colors=None):
        s = ["%s:%s" % (e, c) for e, c in zip(self.events, self.columns)]
        if colors:
            s = ["%s:%s" % (a, ",".join(str(x) if self.rng.random() < .5 else hex(x) for x in c)) for a, c in zip(s, colors)]
        return s[0] if len(s) == 1 and self.rng.random() < .6 else s

    def constraints(self):
        """What is selected, in order."""
        out = []
        if self.permute:
            pairs = [(s, c) for s in range(self.nsrc) for c in range(self.ncol)]
        else:
            n = max(self.nsrc, self.ncol)
            pairs = [(i if self.nsrc > 1 else 0, i if self.ncol > 1 else 0) for i in range(n)]
        for s, c in pairs:
            e = Expected(s, self.names[s], self.events[c], self.columns[c], s)
            e.signal_index = c
            e.series = select(self.tables[s][self.events[c]], self.columns[c], self.pivot, self.filters, self.window, self.default)
            out.append(e)
        return out

    def pivots(self, cons):
        return natural({p for c in cons for p in c.series})

    def text(self):
        return "\n\n".join("%d %r %s\n%s" % (i, self.names[i], e, d.to_string()) for i, tabs in enumerate(self.tables) for e, d in tabs.items())

    def describe(self):
        return dict(sources=self.nsrc, kind="tables" if self.frames else "traces", events=self.events, columns=self.columns, pivot=self.pivot, kinds=self.kinds,
                    filters=self.filters, permute=self.permute, window=self.window, names=self.names)
