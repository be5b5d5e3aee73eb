"""C21: the user's graph and inputs, before, during and after runs that complete, fail or are interrupted."""
from ..seam import RealRandom, SIM, Stream
from .. import world, hist, stats, activity, graphfp
from .. import recomlib as R
from ..interrupt import At, Interrupt
from ..core import seed_of, canon
from .c02 import DEPS

RUNS = {"quick": 2200, "thorough": 60000}
SHRINK = ["ops", "stats"]
RULE = ("one run = one world whose graph (Graph, networkx graph or frozen graph) and inputs (assignments in every form, statistic "
        "dictionaries and their data, constraint lists, district name lists, surcharge and party dictionaries, moves) are "
        "fingerprinted; a random sequence of chains, proposals, optimizers, enumerations, seed-plan generators and statistics "
        "runs on them, completing, failing, aborted by a callback or interrupted at a random instruction; the graph is "
        "queried and all fingerprints compared during and after; non-trivial if something failed or was interrupted")
ASSUMPTIONS = ["the reserved scratch edge weight random_weight is not user data", "a graph given to a plan is frozen against structural change by design"]


class Abort(BaseException):
    pass


OPS = ["activity"] * 8 + ["abort"] * 4 + ["interrupt"] * 5 + ["seed", "seed", "seed", "recom", "recom", "ging", "ging", "read", "read", "move",
       "newplan", "newplan", "grid", "constraints", "random_assignment", "badmove", "trees", "spectral", "chunks"]


def gen(rng, tier, i):
    ops = [[rng.choice(OPS), rng.randrange(1 << 30)] for _ in range(rng.randint(3, 14))]
    return dict(world=world.spec(rng, 3, rng.choice([8, 12]), 2, 4, wide=.02), stats=rng.sample(stats.NAMES, rng.randint(2, 8)), ops=ops,
                form=rng.choice(["graph", "graph", "nx", "frozen"]))


def snap(x):
    """A comparable copy of an input the caller keeps."""
    if type(x).__name__ == "Series":
        return ("series", [repr(v) for v in x.index], [repr(v) for v in x.values])
    if type(x).__name__ == "Assignment":
        return ("assignment", sorted((repr(k), repr(v)) for k, v in x.mapping.items()),
                sorted((repr(k), sorted(map(repr, v))) for k, v in x.parts.items()))
    if isinstance(x, dict):
        return ("dict", [(repr(k), snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(map(repr, x)))
    if callable(x):
        return ("object", id(x))
    return repr(x)


def execute(plan, ctx):
    import pandas
    from functools import partial
    from gerrychain import Partition, MarkovChain, Graph, Election
    from gerrychain.graph import FrozenGraph
    from gerrychain.grid import Grid
    from gerrychain import constraints as C, tree as T, updaters as U
    from gerrychain.partition.assignment import Assignment
    from gerrychain.updaters.locality_split_scores import LocalitySplits
    from gerrychain.optimization import Gingleator
    from gerrychain.proposals import recom, reversible_recom, spectral_recom, ReCom, propose_random_flip
    w = world.World(plan["world"])
    parts = w.parts
    names = list(plan["stats"]) or ["pop"]
    need = ["cut_edges", "cut_edges_by_part", "pop", "csplit"] + [n for n in names if n not in ("cut_edges", "cut_edges_by_part", "pop", "csplit")]
    for n in names:
        need += [d for d in DEPS.get(n, []) if d not in need]
    user = w.nx() if plan["form"] == "nx" else w.graph()
    given = FrozenGraph(user) if plan["form"] == "frozen" else user
    before = graphfp.fp(user)
    kept = []                                             # (what, object, fingerprint)

    def keep(what, x):
        kept.append((what, x, snap(x)))
        return x
    ctx.sig(w.edges, plan["form"])
    tot = w.total()
    target = tot / len(parts)

    def make(r, asg):
        f = r.choice(["dict", "series", "assignment"])
        if f == "dict":
            a = dict(asg)
        elif f == "series":
            a = pandas.Series(list(asg.values()), index=pandas.Index(list(asg), tupleize_cols=False))
        else:
            a = Assignment.from_dict(dict(asg))
        ups = stats.make(w, need)
        parties = keep("party dictionary", {"D": "dem", "R": "rep"})
        data = keep("statistic data", {v: w.attr[v]["pop2"] for v in w.nodes})
        fields = keep("column list", r.choice([["pop2", "dem", "area"], ["rep", "pop", "dem"]]))
        ups["t9"] = U.Tally(fields, alias="t9")
        shares = keep("party list", ["rep", "grn", "dem"])
        ups["l9"] = Election("l9", shares)
        votes = keep("vote dictionaries", {"R": {v: w.attr[v]["rep"] for v in w.nodes}, "D": {v: w.attr[v]["dem"] for v in w.nodes}})
        ups["v9"] = Election("v9", votes)
        ser = keep("statistic series", pandas.Series([w.attr[v]["pop2"] for v in w.nodes], index=pandas.Index(w.nodes, tupleize_cols=False)))
        ups["s9"] = U.DataTally(ser, "s9")
        scores = keep("score list", ["num_split_localities", "num_parts", "naked_boundary"])
        ups["c9"] = LocalitySplits("c9", "county", "pop", scores)
        ups["e9"] = Election("e9", parties)
        ups["d9"] = U.DataTally(data, "d9")
        cols = keep("region column list", ["county", "loc"])
        ups["r9"] = U.tally_region_splits(cols)
        u = keep("statistic dictionary", ups)
        keep("assignment (%s)" % f, a)
        p = Partition(given, a, u, use_default_updaters=False)
        slots.append(hist.Slot(p, dict(asg)))
        return p

    def inputs(tag):
        for what, x, s in kept:
            if snap(x) != s:
                ctx.fail("input", "the caller's %s was changed%s: %r, was %r" % (what, tag, snap(x), s))

    def audit(tag="", deep=True):
        graphfp.compare(ctx, before, graphfp.fp(user), tag)
        if deep:
            for s in slots[:2]:
                if plan["form"] == "nx":                  # the plan works on its own copy
                    copies.setdefault(id(s.plan.graph), (graphfp.fp(s.plan.graph), s.plan.graph))
                graphfp.compare(ctx, copies[id(s.plan.graph)][0] if plan["form"] == "nx" else before, graphfp.fp(s.plan.graph), tag)
                graphfp.query(ctx, s.plan.graph, w, tag)
            if plan["form"] != "nx":
                graphfp.query(ctx, user, w, tag)
        inputs(tag)

    slots, copies = [], {}
    make(RealRandom(plan["seed"]), w.start)
    audit(" by creating a plan")
    faults = 0

    def ok_errors(e):
        return type(e).__name__ in ("RuntimeError", "BalanceError", "PopulationBalanceError", "MetagraphError", "ReversibilityError", "ReselectException")

    for op, seed in plan["ops"]:
        r = RealRandom(seed)
        SIM.stream = Stream(seed_of("op", seed), r.choice(["plain", "plain", "extreme", "ties", "low"]))
        SIM.set_budget(300000)
        s = r.choice(slots)
        ctx.sig(op)
        contig = w.contiguous(s.asg, parts)
        calls = [0]

        def during(where):
            calls[0] += 1
            if calls[0] % 7 == 3:
                audit(" during a run (in %s)" % where, deep=calls[0] % 21 == 3)
        at = None

        def work():
            nonlocal faults
            if op in ("activity", "abort", "interrupt"):
                left = [r.randint(1, 10) if op == "abort" else 10 ** 9]

                def hook(where):
                    during(where)
                    left[0] -= 1
                    if left[0] == 0:
                        ctx.fault("aborted-in:" + where)
                        raise Abort()
                kind = r.choice(activity.KINDS)
                ctx.count("activity:" + kind)
                run = lambda: activity.run(kind, w, s.plan, parts, r, hook, r.randint(2, 7), lambda p: ctx.step())
                if op == "interrupt":
                    nonlocal at
                    at = At(r.choice([r.randint(1, 60), r.randint(1, 400), r.randint(1, 1500)]), r.choice([Interrupt, KeyboardInterrupt, MemoryError]), r.random() < .2)
                    hook2 = lambda where: None
                    run = lambda: activity.run(kind, w, s.plan, parts, r, hook2, r.randint(2, 7), lambda p: None)
                    with at:
                        run()
                else:
                    run()
            elif op in ("seed", "chunks", "random_assignment"):
                if tot <= 0:
                    return
                eps = r.choice([.01, .25, .9])
                g = r.choice([user if plan["form"] != "nx" else w.graph(), s.plan.graph.graph, s.plan.graph])
                names_ = keep("district name list", list(parts))
                meth = partial(r.choice([T.bipartition_tree, T.bipartition_tree_random]), max_attempts=r.choice([1, 5, 30]),
                               spanning_tree_fn=T.uniform_spanning_tree if not isinstance(g, Graph) else r.choice([T.uniform_spanning_tree, T.random_spanning_tree]))
                if op == "random_assignment":
                    f = r.choice([T.recursive_tree_part, T.recursive_seed_part])
                    Partition.from_random_assignment(g if isinstance(g, Graph) else w.graph(), len(parts), eps, "pop", method=partial(f, method=meth),
                                                     updaters=keep("statistic dictionary", stats.make(w, ["pop"])), use_default_updaters=False)
                elif op == "chunks":
                    if len(parts) in (2, 4):
                        SIM.set_budget(60000)
                        T.get_seed_chunks(g if isinstance(g, Graph) else g.graph, 2, len(parts), target, "pop", .9, method=partial(meth, one_sided_cut=True))
                else:
                    f = r.choice([T.recursive_tree_part, T.recursive_seed_part])
                    f(g, names_, target, "pop", eps, method=meth)
            elif op == "recom":
                if not contig or target <= 0 or len(set(s.asg.values())) < 2:
                    return
                cfg = R.config(RealRandom(seed))
                sur = keep("surcharge dictionary", r.choice([{"county": 1.0}, {"county": .5, "muni": .25}, {}, {"county": 2, "muni": 1, "loc": 1}, {"muni": 0, "county": 1.5}, {"county": 0}, {"county": -1, "loc": .5, "muni": 0}]))
                cfg["method"] = "tree"
                recom(s.plan, "pop", target, r.choice([.1, .5, .9]), method=R.build(cfg), region_surcharge=sur)
            elif op == "spectral":
                if contig and s.plan["cut_edges"]:
                    spectral_recom(s.plan, weight_type=r.choice([None, "random"]), lap_type=r.choice(["normalized", "plain"]))
            elif op == "ging":
                if not s.plan["cut_edges"]:
                    return
                cons = keep("constraint list", [lambda p: True, C.UpperBound(lambda p: len(p), 99)])
                u2 = keep("statistic dictionary", {**stats.make(w, ["cut_edges", "pop"]), "mino": U.Tally("dem", alias="mino"), "tot": U.Tally("pop2", alias="tot1")})
                u2["tot"] = lambda p: {k: 10 + len(v) for k, v in p.parts.items()}
                kept[-1] = ("statistic dictionary", u2, snap(u2))
                if set(s.asg.values()) != set(parts):
                    return
                q = Partition(given, dict(s.asg), u2, use_default_updaters=False)
                o = Gingleator(propose_random_flip, cons, q, minority_pop_col="mino", total_pop_col="tot", threshold=.4,
                               score_function=r.choice([None, Gingleator.reward_partial_dist, Gingleator.reward_next_highest_close]))
                runs = [lambda: o.short_bursts(3, 2), lambda: o.simulated_annealing(6, o.linearcycle_beta_function(1, 2, 1)), lambda: o.tilted_run(6, .4),
                        lambda: o.variable_length_short_bursts(5, 1)]
                tries = 0
                for p in r.choice(runs)():
                    ctx.step()
                    during("optimizer")
                    if r.random() < .1:
                        break
            elif op == "read":
                o = list(names) + ["e9", "d9", "r9", "t9", "l9", "v9", "s9"] + (["c9"] if stats.usable("locsp", w, s.asg, parts) else [])
                r.shuffle(o)
                for n in o:
                    if n in stats.NAMES:
                        stats.read(ctx, w, s, n, parts)
                    else:
                        s.plan[n]
                list(s.plan.keys()), repr(s.plan), len(s.plan)
                for p in parts:
                    s.plan.subgraphs[p]
            elif op == "move":
                f = keep("move", hist.flips_for(r.choice(hist.MOVES), w, s.asg, parts, r, s.prev))
                q = s.plan.flip(f)
                slots.append(hist.Slot(q, hist.apply(s.asg, f), dict(s.asg)))
                for n in r.sample(names, min(3, len(names))):
                    stats.read(ctx, w, slots[-1], n, parts)
            elif op == "badmove":
                f = keep("move", {**hist.flips_for("multi", w, s.asg, parts, r), "no such node": parts[0]})
                try:
                    s.plan.flip(f)
                except Exception:
                    ctx.fault("failing-move")
            elif op == "newplan":
                make(r, s.asg if set(s.asg.values()) == set(parts) else w.start)
            elif op == "constraints":
                bounded = [C.UpperBound(lambda p: len(p["cut_edges"]), 10 ** 6), C.LowerBound(lambda p: len(p["cut_edges"]), -1),
                           C.SelfConfiguringUpperBound(lambda p: 0), C.WithinPercentRangeOfBounds(lambda p: 1.0, 10), C.no_vanishing_districts]
                if set(s.asg.values()) != set(parts):     # an empty district fails no_vanishing_districts for ever
                    bounded.pop()
                cons = keep("constraint list", r.sample(bounded, r.randint(1, 4)))
                ch = MarkovChain(lambda p: p.flip({}), r.choice([cons, C.Validator(cons)]), lambda p: True, s.plan, 4)
                for p in ch:
                    ctx.step()
                ch.constraints = keep("constraint list", [bounded[0]])
                for p in ch:
                    ctx.step()
            elif op == "grid":
                dims = keep("dimensions", (r.randint(2, 4), r.randint(2, 4)))
                a = keep("assignment (dict)", {(i, j): i % 2 for i in range(dims[0]) for j in range(dims[1])}) if r.random() < .5 else None
                u = keep("statistic dictionary", {"mine": lambda p: len(p)}) if r.random() < .7 else None
                g = Grid(dims, with_diagonals=r.random() < .5, assignment=a, updaters=u)
                f = graphfp.fp(g.graph)
                for p in MarkovChain(propose_random_flip, lambda p: True, lambda p: True, g, 4):
                    p["perimeter"], p["polsby_popper"], p["population"], str(p), repr(p)
                    ctx.step()
                graphfp.compare(ctx, f, graphfp.fp(g.graph), " (grid)")
            elif op == "trees":
                g = w.graph()
                f = graphfp.fp(g)
                T.uniform_spanning_tree(g)
                sur = keep("surcharge dictionary", r.choice([{"county": 1}, {"county": 0}, {"muni": 0, "county": .5}, {}]))
                T.random_spanning_tree(g, sur)
                T.uniform_spanning_tree(s.plan.graph)
                T.random_spanning_tree(s.plan.graph.graph, sur)
                graphfp.compare(ctx, f, graphfp.fp(g), " (tree drawing)")
        try:
            work()
        except Abort:
            faults += 1
        except (Interrupt, KeyboardInterrupt, MemoryError):
            if at is None or not at.hit:
                raise
            ctx.fault("interrupt:" + at.exc.__name__)
            ctx.count("in:" + str(at.where))
            faults += 1
        except Exception as e:
            if at is not None and at.hit:
                pass                                      # an interrupt the code answered with its own error
            elif not ok_errors(e) and op not in ("seed", "chunks", "random_assignment"):
                raise
            ctx.fault("failed:" + type(e).__name__)
            faults += 1
        audit(" by %s" % op)
        ctx.event(op, calls[0])
        ctx.state([w.edges, op, s.asg])
    audit()
    ctx.nontrivial = faults > 0


def simpler(plan):
    for n in range(3, plan["world"]["n"]):
        yield dict(plan, world=dict(plan["world"], n=n))
    for f, v in (("shape", "path"), ("labels", "int"), ("plabels", "int"), ("pops", "unit"), ("weight", False), ("k", 2)):
        if plan["world"][f] != v:
            yield dict(plan, world=dict(plan["world"], **{f: v}))
    if plan["form"] != "graph":
        yield dict(plan, form="graph")
