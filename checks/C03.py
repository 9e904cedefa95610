"""Payload decoding: generated field lists against the decoded cells."""
import trappy
from vlib import tracegen as tg
from vlib.frames import check_rows

CASES = {"quick": 1500, "thorough": 50000}
RULE = ("A case is a trace of 1-3 user events whose payloads are generated lists of fields (integers in every base and range, texts that nearly are numbers, "
        "multi-word texts, '=' in values, arrays of different lengths, empty arrays, absent fields); distinct by the payloads.")
ASSUMPTIONS = ["field names are identifiers; digit group underscores and non-ASCII digits are not generated",
               "an integer beyond 2^53 in a column with missing values is compared as a double"]
REQUIRED = ["cells compared", "empty arrays", "empty array last", "arrays padded", "records without an array before one with", "values with '='",
            "multi-word texts", "big integers", "missing cells"]


def case(ctx):
    rng = ctx.rng
    layout = tg.gen_layout(rng)
    n = rng.choice([1, 2, 3, 6, 15, 40])
    names = rng.sample(tg.USER, rng.randint(1, 3))
    keys = {x: rng.sample(tg.KEYS, rng.randint(1, 7)) for x in names}
    homog = rng.random() < .3        # the same fields on each line, as real traces have
    order = {x: rng.sample(keys[x], len(keys[x])) for x in names}
    times = tg.gen_times(rng, n)
    lines, fields = [], []
    for t in times:
        name = rng.choice(names)
        if homog:
            f = []
            for k in order[name]:
                f += tg.gen_fields(rng, [k], 1)
        else:
            f = tg.gen_fields(rng, keys[name], rng.randint(1, 6))
        if all(x[1] == "{}" for x in f):      # such a payload is empty once its arrays are removed
            f.append(("zz", "1", 1))
        fields.append(f)
        lines.append(tg.mk_line(rng, layout, t, name, name + ":" + " " * rng.choice([1, 1, 8]), tg.fields_text(f), tg.fields_cells(f)))
    path = ctx.path("trace.txt")
    ctx.keep("trace.txt", tg.write(path, lines, rng.choice(tg.HEADERS), rng.random() < .8))
    tr = trappy.FTrace(path, scope=rng.choice(["all", "custom"]), events=names, normalize_time=False)
    allt = tg.bump_times([l.ts for l in lines])
    for name in names:
        mine = [(i, l) for i, l in enumerate(lines) if l.table == name]
        check_rows(ctx, getattr(tr, name).data_frame, [l for _, l in mine], [allt[i] for i, _ in mine], [i for i, _ in mine], name)
        flds = [fields[i] for i, _ in mine]
        hasarr = [any(isinstance(v, tg.Array) and len(v) for _, _, v in f) for f in flds]
        if any(hasarr) and not hasarr[0]:
            ctx.count("records without an array before one with")
        longest = {}
        for f in flds:
            for k, t, v in f:
                if isinstance(v, tg.Array):
                    longest[k] = max(longest.get(k, 0), len(v))
        for f in flds:
            for j, (k, t, v) in enumerate(f):
                if isinstance(v, tg.Array):
                    if not v:
                        ctx.count("empty arrays")
                        if j == len(f) - 1:
                            ctx.count("empty array last")
                    elif len(v) < longest[k]:
                        ctx.count("arrays padded")
                elif isinstance(v, str):
                    if "=" in v:
                        ctx.count("values with '='")
                    if " " in v:
                        ctx.count("multi-word texts")
                elif abs(v) > 2 ** 53:
                    ctx.count("big integers")
        cols = set(k for f in flds for k, _, _ in f)
        ctx.count("missing cells", sum(len(cols - set(k for k, _, _ in f)) for f in flds))
    ctx.seen(tuple(l.data for l in lines))
    ctx.sample(dict(payloads=[l.data for l in lines[:3]]))
