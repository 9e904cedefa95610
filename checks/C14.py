"""Values of expressions against the model of the grammar."""
import re
import numpy as np
import pandas as pd
import trappy
from trappy.stats.grammar import Parser
from vlib import gram
from vlib.gram import Vec, Row, Agg, Ev, NAN

CASES = {"quick": 640, "thorough": 40000}
RULE = ("A case is a trace of 2-4 generated events (shared and distinct times, with and without pivot, missing values, one row) and 3-6 random expressions solved by one parser, "
        "so that columns join the aggregated data one after another, with random method, limit and fill. Operators, nesting, signs, spacing, functions, variables and "
        "forwarded results are drawn at random; the text and its value are built together. Every cell of every result is compared. Distinct by (expression text, shape of data).")
ASSUMPTIONS = ["&& and || join scalars only; a sign written next to a number belongs to the number", "comparison and logical operators join columns of the same pivot values",
               "equality of floats up to 1e-9 relative"]
REQUIRED = ["vectors compared", "scalars compared", "reductions", "function arguments compared", "forwarded results", "columns joined later", "mixed operators of a level", "limits", "bfill", "nearest",
            "no fill", "missing values in data", "padded cells", "comparisons", "logical", "precedence without brackets", "comparisons as numbers"]
P_POW, P_UN, P_MUL, P_ADD, P_CMP, P_LOG = range(6)
ATOM = -1


class E(object):
    """Expression: its text, a thunk of its value, how tightly it binds, its shape (None for a number, or ("vec"/"row", pivot values))."""
    __slots__ = ("text", "val", "prec", "shape")

    def __init__(self, text, val, prec, shape=None):
        self.text, self.val, self.prec, self.shape = text, val, prec, shape


class Gen(object):
    def __init__(self, ctx, agg, keys, pvars, fwd):
        self.ctx, self.rng, self.agg, self.keys, self.pvars, self.fwd = ctx, ctx.rng, agg, keys, pvars, fwd
        self.calls = []
        self.parens = 0

    def sp(self):
        return self.rng.choice(["", " ", " ", "  "])

    def par(self, e):
        self.parens += 1
        return E("(" + self.sp() + e.text + self.sp() + ")", e.val, ATOM, e.shape)

    def literal(self):
        rng = self.rng
        v = rng.choice([0, 1, 2, 3, 10, 7, 100, 0.5, 2.25, 1.0])
        if isinstance(v, float):
            t = rng.choice(["%s" % v, "%.3f" % v, "%.2e" % v])
            v = float(t)
        else:
            t = str(v)
        if rng.random() < .12:
            return E("-" + t, lambda: -float(v), P_UN)
        return E(t, lambda: float(v), ATOM)

    def accessor(self):
        ev, col, names = self.rng.choice(self.keys)
        key = (ev.name, col)
        piv = frozenset(r[ev.pivot] if ev.pivot else "NO_PIVOT" for _, r in ev.rows)
        return E("%s:%s" % (self.rng.choice(names), col), lambda: Vec(self.agg.vector(key)), ATOM, ("vec", piv))

    def atom(self, depth):
        rng = self.rng
        r = rng.random()
        if depth > 0 and r < .3:
            return self.func(depth)
        if r < .7:
            return self.accessor()
        if r < .85:
            return self.literal()
        if r < .95 or not self.fwd:
            k = rng.choice(["var1", "_v2", "V_three"])
            return E(k, lambda: self.pvars[k], ATOM)
        self.ctx.count("forwarded results")
        val, shape = self.fwd
        return E("fwd", lambda: val, ATOM, shape)

    def func(self, depth):
        rng = self.rng
        k = rng.choice(["numpy.abs", "spy", "pick2", "mean", "numpy.mean", "const", "neg", "numpy.floor"])
        if k == "const":
            return E("const" + self.sp() + "(" + self.sp() + ")", lambda: 42.0, ATOM)
        if k == "spy":
            args = [self.expr(depth - 1, P_ADD) for _ in range(rng.choice([1, 2, 3]))]
            def val():
                vals = [a.val() for a in args]
                self.calls.append(vals)
                return vals[0]
            return E("spy(" + (self.sp() + "," + self.sp()).join(a.text for a in args) + ")", val, ATOM, args[0].shape)
        if k == "pick2":
            a, b = self.expr(depth - 1, P_ADD), self.expr(depth - 1, P_ADD)
            return E("pick2(%s,%s%s)" % (a.text, self.sp(), b.text), b.val, ATOM, b.shape)
        if k in ("mean", "numpy.mean"):
            a = self.accessor()
            self.ctx.count("reductions")
            return E("%s(%s%s%s)" % (k, self.sp(), a.text, self.sp()), lambda: Row({p: mean(v) for p, v in a.val().cols.items()}), ATOM, ("row", a.shape[1]))
        a = self.expr(depth - 1, P_ADD)
        fn = {"numpy.abs": abs, "numpy.floor": np.floor, "neg": lambda v: -v}[k]
        return E("%s(%s%s%s)" % (k, self.sp(), a.text, self.sp()), lambda: umap(fn, a.val()), ATOM, a.shape)

    def wrap(self, e, maxprec):
        if e.prec > maxprec or (self.rng.random() < .08 and self.parens < 3):
            return self.par(e)
        return e

    def expr(self, depth, top):
        """A numeric expression that binds at least as tightly as top, or is in brackets."""
        rng = self.rng
        if depth <= 0 or self.parens > 3 or rng.random() < .2:
            return self.wrap(self.atom(depth), top)
        if depth > 1 and rng.random() < .06:
            # what a comparison gives counts as 0 and 1
            c = self.par(self.comparison(0))
            self.ctx.count("comparisons as numbers")
            if rng.random() < .5:
                return self.wrap(E("-" + c.text, lambda: apply1("*", -1.0, c.val()), P_UN, c.shape), top)
            return self.wrap(self.join(c, "*", E("3", lambda: 3.0, ATOM), P_MUL), top)
        lvl = rng.choice([P_POW, P_UN, P_MUL, P_MUL, P_ADD, P_ADD])
        if lvl == P_UN:
            a = self.expr(depth - 1, P_UN if rng.random() < .4 else P_POW)
            sep = " " if a.text[0] in "0123456789+-" else self.sp()
            s = rng.choice("-+-")
            return self.wrap(E(s + sep + a.text, a.val if s == "+" else lambda: apply1("*", -1.0, a.val()), P_UN, a.shape), top)
        n = rng.choice([1, 1, 2])
        if lvl == P_POW:
            e = self.atom(0)
            e = self.par(e) if e.prec != ATOM else e
            for _ in range(n):
                x = rng.choice([2, 1, 0, 3])
                e = self.join(e, "**", E(str(x), lambda x=x: float(x), ATOM), P_POW)
            return self.wrap(e, top)
        ops = {P_MUL: ["*", "/", "//", "%"], P_ADD: ["+", "-"]}[lvl]
        if n == 2:
            self.ctx.count("mixed operators of a level")
        e = self.expr(depth - 1, lvl)
        for _ in range(n):
            for _ in range(5):
                r = self.expr(depth - 1, lvl - 1)
                if not (e.shape and r.shape) or e.shape[0] == r.shape[0]:
                    break
            else:
                r = E("3", lambda: 3.0, ATOM)
            e = self.join(e, rng.choice(ops), r, lvl)
        return self.wrap(e, top)

    def join(self, a, op, b, lvl):
        if lvl > P_MUL and (a.prec in (P_MUL, P_UN, P_POW) or b.prec in (P_MUL, P_UN, P_POW)):
            self.ctx.count("precedence without brackets")
        shape = a.shape or b.shape
        if a.shape and b.shape:
            shape = (a.shape[0], a.shape[1] | b.shape[1])
        fn = gram.arith if lvl <= P_ADD else gram.compare if lvl == P_CMP else gram.logic
        return E(a.text + self.sp() + op + self.sp() + b.text, lambda: gram.apply(fn, op, a.val(), b.val()), lvl, shape)

    def comparison(self, depth):
        rng = self.rng
        self.ctx.count("comparisons")
        a = self.expr(depth, P_ADD)
        for _ in range(4):
            b = self.expr(depth - 1, P_ADD)
            if not (a.shape and b.shape) or like(a.shape, b.shape):
                break
        else:
            b = self.literal()
        return self.join(a, rng.choice([">", "<", ">=", "<=", "==", "!="]), b, P_CMP)

    def logical(self, depth):
        rng = self.rng
        e = self.comparison(depth)
        if rng.random() < .3:
            e = self.par(e)
        for _ in range(rng.choice([1, 2])):
            for _ in range(6):
                b = self.comparison(depth)
                if e.shape == b.shape and like(e.shape, b.shape):
                    break
            else:
                return e
            self.ctx.count("logical")
            if rng.random() < .3:
                b = self.par(b)
            e = self.join(e, rng.choice(["&", "|"] + (["&&", "||"] if not e.shape else [])), b, P_LOG)
        return e


def like(a, b):
    """The same pivot values in the same order (of mixed types the order is not defined)."""
    return a == b and (not a or len({type(x) for x in a[1]}) == 1)


def mean(v):
    ok = [x for x in v if not gram.missing(x)]
    return sum(map(float, ok)) / len(ok) if ok else NAN


def umap(fn, v):
    g = lambda x: x if x is gram.ANY else fn(gram.f(x))
    if isinstance(v, Vec):
        return Vec({p: [g(x) for x in xs] for p, xs in v.cols.items()})
    if isinstance(v, Row):
        return Row({p: g(x) for p, x in v.cols.items()})
    return g(v)


def apply1(op, a, b):
    return gram.apply(gram.arith, op, a, b)


def gen_events(ctx):
    rng = ctx.rng
    pool = sorted({round(rng.uniform(0, 5), rng.choice([0, 1, 3])) for _ in range(12)})
    names = rng.sample(["alpha", "beta_2", "gamma", "cpu_load", "x"], rng.choice([2, 3, 4]))
    evs = []
    cols = ["val", "load"]
    for n in names:
        k = rng.choice([1, 2, 4, 8])
        times = sorted(rng.sample(pool, min(k, len(pool)))) if rng.random() < .7 else sorted({round(rng.uniform(0, 5), 6) for _ in range(k)})
        pivot = rng.choice([None, None, "cpu", "task"])
        own = cols + [n + "_x"]
        rows = []
        nanny = rng.random() < .15
        for t in times:
            r = {"cpu": rng.randrange(3), "task": rng.choice(["a", "b"])}
            for c in own:
                r[c] = rng.choice([rng.randrange(-50, 50), rng.randrange(1000), 0, 1])
                if c == "load":
                    r[c] = rng.choice([0.25, -1.5, 3.0, 1e3, 0.0, 1e-3])
                if nanny and rng.random() < .3 and c == "val":
                    r[c] = NAN
                    ctx.count("missing values in data")
            rows.append((t, r))
        evs.append(Ev(n, rows, pivot))
    return evs


def build(evs):
    t = trappy.BareTrace(name="t")
    for e in evs:
        cols = list(e.rows[0][1])
        df = pd.DataFrame({c: [r[c] for _, r in e.rows] for c in cols}, index=pd.Index([x for x, _ in e.rows], name="Time", dtype=float))
        t.add_parsed_event(e.name, df, pivot=e.pivot)
    return t


def same_value(ctx, got, want, text, agg, **kw):
    if isinstance(want, Vec):
        ctx.check(isinstance(got, pd.DataFrame), "%s gives a %s, expected columns" % (text, type(got).__name__), **kw)
        ctx.check(list(got.index) == agg.times, "%s is at the times %s, expected the union %s" % (text, list(got.index), agg.times), **kw)
        ctx.check(sorted(map(str, got.columns)) == sorted(map(str, want.cols)), "%s has the columns %s, expected %s" % (text, list(got.columns), list(want.cols)), **kw)
        for p, xs in want.cols.items():
            g = got[p].tolist()
            ctx.count("cells", len(xs))
            bad = [(t, a, b) for t, a, b in zip(agg.times, g, xs) if not gram.same(a, b)]
            ctx.check(not bad, "%s, pivot value %r: (time, got, expected) %s" % (text, p, bad[:5]), result=got.to_string(), **kw)
        ctx.count("vectors compared")
    elif isinstance(want, Row):
        ctx.check(isinstance(got, pd.Series) and sorted(map(str, got.index)) == sorted(map(str, want.cols)), "%s gives %r, expected a value for each of %s" % (text, got, list(want.cols)), **kw)
        bad = [(p, got[p], x) for p, x in want.cols.items() if not gram.same(got[p], x)]
        ctx.check(not bad, "%s: (pivot, got, expected) %s" % (text, bad), **kw)
        ctx.count("rows compared")
    else:
        ctx.check(np.isscalar(got) and gram.same(got, want), "%s gives %r, expected %r" % (text, got, want), **kw)
        ctx.count("scalars compared")


def case(ctx):
    rng = ctx.rng
    evs = gen_events(ctx)
    trace = build(evs)
    kw = {}
    if rng.random() < .3:
        kw["method"] = rng.choice(["pad", "bfill", "nearest"])
        ctx.count(kw["method"])
    if rng.random() < .25:
        kw["limit"] = rng.choice([1, 2, 5])
        ctx.count("limits")
    if rng.random() < .35:
        kw["fill"] = rng.choice([False, False, True])
        if not kw["fill"]:
            ctx.count("no fill")
    events = {e.name: (e, trace.class_definitions[e.name]) for e in evs}
    seen = []

    def spy(*args):
        seen.append(args)
        return args[0]

    class Obj(object):
        def __call__(self, a, b):
            return b
    pvars = {"var1": rng.choice([3, 0.5, -2]), "_v2": 10, "V_three": 2.5, "spy": spy, "pick2": Obj(), "mean": np.mean, "const": lambda: 42.0, "neg": lambda x: -x}
    for e in evs:
        if rng.random() < .3:
            pvars["ALIAS_" + e.name] = events[e.name][1]
    parser = Parser(trace, pvars=pvars, **kw)
    agg = Agg(**kw)
    fwd = None
    texts = []
    ctx.keep("data", "\n".join("%s pivot %s\n%s" % (e.name, e.pivot, getattr(trace, e.name).data_frame.to_string()) for e in evs))
    ctx.keep("options", str(kw))
    for step in range(rng.randint(3, 6)):
        choice = [(e, c) for e in evs for c in e.rows[0][1] if c in ("val", "load", e.name + "_x")]
        if rng.random() < .6:
            lim = rng.sample(evs, rng.choice([1, 1, 2]))
            choice = [x for x in choice if x[0] in lim]
        keys = [(e, c, [e.name] + [k for k, v in pvars.items() if v is events[e.name][1]]) for e, c in rng.sample(choice, min(len(choice), rng.choice([1, 2, 3])))]
        before = len(agg.cols)
        g = Gen(ctx, agg, keys, pvars, fwd)
        mode = rng.random()
        e = g.expr(rng.choice([1, 2, 3]), P_ADD) if mode < .65 else g.comparison(rng.choice([0, 1, 2])) if mode < .8 else g.logical(rng.choice([0, 1]))
        text = e.text
        if len(text) > 170:
            continue
        for n, c in re.findall(r"([A-Za-z0-9_.]+):([A-Za-z0-9_]+)", text):
            ev = events[n[6:] if n.startswith("ALIAS_") else n][0]
            agg.add((ev.name, c), ev.select(), ev.pivot)
        if len(agg.cols) > before:
            fwd = None
            if before:
                ctx.count("columns joined later")
        try:
            want = e.val()
            args = g.calls
        except gram.Skip:
            skipped = True
        else:
            skipped = False
        if "fwd" in re.findall(r"\bfwd\b", text) and fwd is None:
            skipped = True
        texts.append(text)
        ctx.keep("expressions", "\n".join(texts))
        del seen[:]
        if skipped:
            break
        got = parser.solve(text)
        same_value(ctx, got, want, text, agg)
        for a in args:
            ok = any(len(s) == len(a) and all(plain_same(x, y, agg) for x, y in zip(s, a)) for s in seen)
            ctx.check(ok, "%s: the function was never called with its arguments" % text, calls=repr(seen))
            ctx.count("function arguments compared")
        same_value(ctx, parser.solve(text), want, text + " (again)", agg)
        if isinstance(got, pd.DataFrame) and e.prec <= P_ADD and rng.random() < .6 and not has_any(want):
            pvars["fwd"] = got
            fwd = (want, e.shape)
        ctx.count("padded cells", sum(len(pts) for col in agg.cols.values() for pts in col.values()))
        ctx.seen(text, len(agg.times), len(agg.cols))
    ctx.sample(texts[:3])


def has_any(v):
    return any(x is gram.ANY for xs in v.cols.values() for x in xs)


def plain_same(got, want, agg):
    if isinstance(want, Vec):
        return (isinstance(got, pd.DataFrame) and list(got.index) == agg.times and sorted(map(str, got.columns)) == sorted(map(str, want.cols))
                and all(gram.same(a, b) for p, xs in want.cols.items() for a, b in zip(got[p].tolist(), xs)))
    if isinstance(want, Row):
        return isinstance(got, pd.Series) and sorted(map(str, got.index)) == sorted(map(str, want.cols)) and all(gram.same(got[p], x) for p, x in want.cols.items())
    return np.isscalar(got) and gram.same(got, want)
