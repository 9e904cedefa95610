"""Histories of topologies against a model of lists of groups."""
import copy
import trappy  # noqa: F401
from trappy.stats.Topology import Topology

CASES = {"quick": 4000, "thorough": 400000}
RULE = ("A case is a history of 3-25 operations over 1-4 topologies made with and without clusters (lists, tuples; nodes numbers or names; the same lists given to several "
        "topologies and levels; empty additions; lists changed by the caller after they were given); after each operation every level of every topology is compared with the "
        "model, and lookups of every index and group. Distinct by history.")
ASSUMPTIONS = ["groups are lists of hashable nodes; the groups themselves are not changed by the caller"]
REQUIRED = ["additions", "levels compared", "lookups", "lookups of absent groups", "absent levels", "shared lists", "nodes in several groups", "clusters", "equal groups", "outer lists changed"]


def case(ctx):
    rng = ctx.rng
    pool = rng.choice([list(range(8)), ["a", "b", "c", "d", "e", "big", "LITTLE"], [0, "a", 3, (1, 2), 100, -1]])
    group = lambda: [rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3, 5]))] if rng.random() < .1 else rng.sample(pool, rng.choice([1, 1, 2, 3, min(5, len(pool))]))
    names = ["cluster", "cpu", "socket", "x y", "grp1"]
    topos, given, log = [], [], []
    for step in range(rng.randint(3, 25)):
        r = rng.random()
        if not topos or (r < .15 and len(topos) < 4):
            if rng.random() < .6:
                arg = rng.choice(given) if given and rng.random() < .3 else [group() for _ in range(rng.choice([0, 1, 2, 3]))]
                if any(arg is g for g in given):
                    ctx.count("shared lists")
                snap = copy.deepcopy(arg)
                t = Topology(clusters=arg) if rng.random() < .7 else Topology(arg)
                model = {}
                if snap:
                    model["cluster"] = list(snap)
                    nodes = []
                    for n in [n for g in snap for n in g]:
                        if n not in nodes:
                            nodes.append(n)
                    model["cpu"] = ("any order", [[n] for n in nodes])
                    ctx.count("clusters")
                given.append(arg)
                ctx.check(arg == snap, "the clusters given were changed to %r from %r" % (arg, snap))
                log.append(("new", snap))
            else:
                t, model = Topology(), {}
                log.append(("new",))
            topos.append((t, model))
        elif r < .25 and given:
            # the caller goes on using its list
            g = rng.choice(given)
            if rng.random() < .5 and g:
                g.pop()
            else:
                g.append([rng.choice(pool)])
            ctx.count("outer lists changed")
            log.append(("outer list changed",))
        else:
            i = rng.randrange(len(topos))
            t, model = topos[i]
            level = rng.choice(names)
            vals = rng.choice(given) if given and rng.random() < .3 else [group() for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            if any(vals is g for g in given):
                ctx.count("shared lists")
            given.append(vals)
            snap = copy.deepcopy(vals)
            t.add_to_level(level, vals)
            ctx.check(vals == snap, "the groups given were changed to %r from %r" % (vals, snap))
            old = model.get(level, [])
            if isinstance(old, tuple):
                old = [list(g) for g in t.get_level(level)[:len(old[1])]]     # as checked after the construction
            model[level] = old + snap
            ctx.count("additions")
            log.append(("add", i, level, snap))
        ctx.keep("history", "\n".join(map(repr, log)))
        for i, (t, model) in enumerate(topos):
            state(ctx, i, t, model, names)
    ctx.seen(repr(log))
    ctx.sample(repr(log[:4]))


def state(ctx, i, t, model, names):
    rng = ctx.rng
    what = "topology %d" % i
    ctx.check(sorted(t) == sorted(model), "%s: levels %s, expected %s" % (what, sorted(t), sorted(model)))
    nodes = []
    for level in names + ["zz"]:
        ctx.check(t.has_level(level) == (level in model), "%s: has_level(%r) is %r" % (what, level, t.has_level(level)))
        if level not in model:
            for f in (lambda: t.get_level(level), lambda: t.level_span(level), lambda: t.get_index(level, [1])):
                try:
                    f()
                    ctx.check(False, "%s: the absent level %r has groups" % (what, level))
                except KeyError:
                    pass
            ctx.count("absent levels")
            continue
        got = t.get_level(level)
        want = model[level]
        if isinstance(want, tuple):
            ctx.check(sorted(got, key=repr) == sorted(want[1], key=repr), "%s: level %s is %r, expected one group for each of %r" % (what, level, got, want[1]))
            want = [list(g) for g in got]
        ctx.check(got == want, "%s: level %s is %r, expected %r" % (what, level, got, want))
        ctx.check(t.level_span(level) == len(want), "%s: level %s has the span %r, expected %d" % (what, level, t.level_span(level), len(want)))
        ctx.count("levels compared")
        for k, g in enumerate(want):
            ctx.check(t.get_node(level, k) == g, "%s: get_node(%s, %d) is %r, expected %r" % (what, level, k, t.get_node(level, k), g))
            idx = t.get_index(level, g)
            ctx.check(idx == want.index(g), "%s: get_index(%s, %r) is %r, expected %r" % (what, level, g, idx, want.index(g)))
            ctx.count("lookups", 2)
            if want.count(g) > 1:
                ctx.count("equal groups")
            for n in g:
                if n in nodes:
                    ctx.count("nodes in several groups")
                else:
                    nodes.append(n)
        try:
            t.get_index(level, ["no such node"])
            ctx.check(False, "%s: an absent group has an index in level %s" % (what, level))
        except ValueError:
            ctx.count("lookups of absent groups")
        try:
            t.get_node(level, len(want))
            ctx.check(False, "%s: level %s has a group after its last" % (what, level))
        except IndexError:
            pass
    flat = t.flatten()
    ctx.check(len(flat) == len(nodes) and all(n in flat for n in nodes), "%s: flatten() is %r, the nodes are %r" % (what, flat, nodes))
    al = t.get_level("all")
    ctx.check(len(al) == 1 and sorted(al[0], key=repr) == sorted(flat, key=repr), "%s: level all is %r" % (what, al))
    ctx.check(t.level_span("all") == len(al), "%s: level_span('all') is %r, the level has %d group" % (what, t.level_span("all"), len(al)))
    if rng.random() < .1:
        flat.append("mine")
        ctx.check("mine" not in t.flatten(), "%s: changing the flattened list changed the topology" % what)
        ctx.check(all(l in repr(t) for l in model), "%s: repr lacks a level: %r" % (what, repr(t)))
