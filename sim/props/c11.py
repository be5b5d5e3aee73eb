"""C11: seed-plan generators under every draw style, splitter configuration, failure and interrupt."""
from ..seam import RealRandom, SIM, Stream
from .. import world, hist, stats, graphfp
from .. import recomlib as R
from ..core import seed_of

RUNS = {"quick": 5500, "thorough": 100000}
SHRINK = ["ops"]
RULE = ("one run = one world and a sequence of seed-plan requests (recursive_tree_part, recursive_seed_part with n/ceil variants, "
        "epsilon_tree_bipartition, from_random_assignment) on the user's graph, its frozen form or a subgraph of it, with splitter "
        "configuration, tolerance, draw style and possibly an interrupt at the n-th draw or a splitter that fails or raises; "
        "non-trivial if a plan was produced and a fault hit")
ASSUMPTIONS = ["population comparisons use 1e-9 relative slack", "requests for at least two districts on connected graphs with positive population"]
STYLES = ["plain", "plain", "plain", "extreme", "ties", "const", "low"]


class Boom(Exception):
    pass


def gen(rng, tier, i):
    ops = []
    for _ in range(rng.randint(1, 4)):
        ops.append(dict(kind=rng.choice(["tree", "tree", "seed", "seed", "eps", "from", "from"]), seed=rng.randrange(1 << 30), style=rng.choice(STYLES),
                        k=rng.randint(2, 8), eps=rng.choice([.05, .1, .25, .4, .5, .5, .75]), cfg=R.config(rng), fault=rng.choice([None, None, None, "draw", "raise", "empty"]),
                        on=rng.choice(["graph", "frozen", "sub", "partition"]), n=rng.choice([None, None, None, 2, 3]), ceil=rng.choice([None, None, 2, 3, 4]),
                        repeats=rng.choice([1, 1, 2, 4])))
    return dict(world=world.spec(rng, 4, rng.choice([9, 16, 26]), 2, 4, pops=["unit", "unit", "small", "quarter", "zero", "census"], wide=.02), ops=ops)


def execute(plan, ctx):
    from functools import partial
    from gerrychain import Partition, GeographicPartition
    from gerrychain.graph import FrozenGraph
    from gerrychain import tree as T
    w = world.World(plan["world"])
    user = w.graph()
    fr = FrozenGraph(w.graph())
    part = Partition(w.graph(), dict(w.start), stats.make(w, ["cut_edges", "pop"]), use_default_updaters=False)
    all_g = [user, fr, part.graph]
    before = [graphfp.fp(g) for g in all_g]
    ctx.sig(w.edges)
    made = 0
    for op in plan["ops"]:
        r = RealRandom(op["seed"])
        SIM.stream = Stream(seed_of("d", op["seed"]), op["style"])
        if op["fault"] == "draw":
            SIM.stream = R.CutStream(seed_of("d", op["seed"]), op["style"], r.randint(1, 120))
        SIM.set_budget(1500000)
        g = {"graph": user, "frozen": fr, "sub": user, "partition": part.graph}[op["on"]]
        nodes = set(w.nodes)
        if op["on"] == "sub":
            grown = [r.choice(w.nodes)]
            while len(grown) < len(w.nodes) * .7:
                grown.append(r.choice(sorted({u for v in grown for u in w.adj[v]} - set(grown), key=repr)))
            nodes = set(grown)
            g = (user if r.random() < .5 else fr).subgraph(nodes)
        tot = sum(w.attr[v]["pop"] for v in nodes)
        k = 2 if op["kind"] == "eps" else min(op["k"], len(nodes))
        if tot <= 0 or k < 2:
            continue
        target, eps, cfg = tot / k, op["eps"], dict(op["cfg"], attempts=max(10, op["cfg"]["attempts"]), resel=False)
        parts = r.choice([list(range(k)), ["D%d" % j for j in range(k)], [(-1) ** j * j * 3 for j in range(k)], [5] + list(range(k - 1))[::-1]])
        parts = parts if len(set(parts)) == k else list(range(k))
        calls, tiny = [0], [False]
        arm = r.randint(1, 5)
        base = R.build(cfg)

        def method(graph, **kw):
            calls[0] += 1
            tiny[0] = tiny[0] or len(graph) < 2
            if calls[0] == arm and op["fault"] == "raise":
                ctx.fault("splitter-raises")
                raise Boom()
            return base(graph, **kw)
        if op["fault"] == "empty":
            # a splitter that runs out of attempts, at a random moment
            def method(graph, **kw):
                calls[0] += 1
                tiny[0] = tiny[0] or len(graph) < 2
                if calls[0] == arm:
                    ctx.fault("splitter-exhausted")
                    raise RuntimeError("Could not find a possible cut")
                return base(graph, **kw)
        if type(g).__name__ == "FrozenGraph" and (cfg["method"] == "default" or cfg["st"] == "random" or op["kind"] == "from"):
            g = g.graph                                # (that tree method works on networkx graphs only)
        ctx.sig(op["kind"], k, eps, cfg, op["style"], op["fault"])
        kind = op["kind"]
        try:
            if kind == "eps":
                given = list(parts)
                got = T.epsilon_tree_bipartition(g, given, target, "pop", eps, op["repeats"], method=method)
                ctx.check(given == parts, "inputs", "the list of districts passed in was changed")
            elif kind == "tree":
                got = T.recursive_tree_part(g, parts, target, "pop", eps, op["repeats"], method=method)
            elif kind == "seed":
                got = T.recursive_seed_part(g, parts, target, "pop", eps, method=method, node_repeats=op["repeats"], n=op["n"], ceil=op["ceil"])
            else:
                f = r.choice(["tree", "seed", "default"])
                kw = {} if f == "default" else dict(method=partial(T.recursive_tree_part if f == "tree" else T.recursive_seed_part, method=method))
                if f == "default" and (len(nodes) > 16 or op["style"] != "plain"):
                    kw = dict(method=partial(T.recursive_tree_part, method=partial(T.bipartition_tree, max_attempts=20)))
                if f == "default" and not kw:
                    SIM.set_budget(10 ** 8)
                    kw = dict(method=partial(T.recursive_tree_part, method=partial(T.bipartition_tree, max_attempts=100)))
                p = Partition.from_random_assignment(g, k, eps, "pop", stats.make(w, ["cut_edges"]), use_default_updaters=False, **kw)
                got = {v: p.assignment[v] for v in nodes}
                parts = list(range(k))
                ctx.check(set(p.assignment) == nodes, "nodes", "the plan covers other nodes than the graph")
        except (RuntimeError, T.BalanceError, T.PopulationBalanceError, R.Cutoff, Boom, IndexError) as e:
            if isinstance(e, IndexError) and not tiny[0]:   # (asked to split a single node: any error will do)
                raise
            if isinstance(e, R.Cutoff):
                ctx.fault("interrupt-at-draw")
            ctx.check(not isinstance(e, Boom) or op["fault"] == "raise", "boom", "unexpected")
            ctx.count("failed:" + type(e).__name__)
            ctx.event("failed", type(e).__name__)
            got = None
        if got is not None:
            ctx.check(set(got) == nodes, "incomplete", lambda: "nodes without a district: %r, foreign nodes: %r" % (
                sorted(nodes - set(got)), sorted(set(got) - nodes, key=repr)))
            ctx.check(set(got.values()) == set(parts), "unused", lambda: "districts used %r, requested %r" % (sorted(set(got.values()), key=repr), parts))
            for d in parts:
                s = {v for v in nodes if got[v] == d}
                ctx.check(w.connected(s), "disconnected", lambda: "district %r = %r is not connected" % (d, sorted(s)))
                pop = sum(w.attr[v]["pop"] for v in s)
                ctx.check(abs(pop - target) <= eps * target * (1 + 1e-9) + 1e-9, "unbalanced", lambda: "%s: district %r has population %r, target %r +- %r (%d districts)" % (
                    kind, d, pop, target, eps, k))
            made += 1
            ctx.count("made:" + kind)
            ctx.event(kind, sorted(got.items(), key=repr))
            ctx.state([w.edges, got])
        ctx.step(calls[0])
        for b, h in zip(before, all_g):
            graphfp.compare(ctx, b, graphfp.fp(h), " by %s" % kind)
            graphfp.query(ctx, h, w, " after %s" % kind)
        hist.check_views(ctx, part, w, w.start, w.parts, False, " after a seed-plan request")
    ctx.nontrivial = made > 0 and bool(ctx.faults or ctx.counts)


def simpler(plan):
    for n in range(4, plan["world"]["n"]):
        yield dict(plan, world=dict(plan["world"], n=n))
    for f, v in (("shape", "path"), ("labels", "int"), ("plabels", "int"), ("pops", "unit"), ("weight", False), ("k", 2)):
        if plan["world"][f] != v:
            yield dict(plan, world=dict(plan["world"], **{f: v}))
    for j, op in enumerate(plan["ops"]):
        for f, v in (("style", "plain"), ("fault", None), ("on", "graph"), ("n", None), ("ceil", None), ("repeats", 1)):
            if op[f] != v:
                yield dict(plan, ops=plan["ops"][:j] + [dict(op, **{f: v})] + plan["ops"][j + 1:])
        for kk in range(2, op["k"]):
            yield dict(plan, ops=plan["ops"][:j] + [dict(op, k=kk)] + plan["ops"][j + 1:])
        for f, v in (("method", "default"), ("st", "random"), ("bal", "memo"), ("repeats", 1), ("choice", "lib"), ("surcharge", None)):
            if op["cfg"][f] != v:
                yield dict(plan, ops=plan["ops"][:j] + [dict(op, cfg=dict(op["cfg"], **{f: v}))] + plan["ops"][j + 1:])
