"""C04: independent runs in one process, interleaved, nested and abandoned, against each of them alone."""
import json, os
from ..seam import RealRandom, SIM, Stream
from .. import world, hist, stats
from ..core import seed_of, canon, Violation
from .c02 import DEPS

RUNS = {"quick": 1300, "thorough": 30000}
SHRINK = ["actors", "sched"]
RULE = ("one run = one or two worlds (often equal in size and labels but with different data) and 2-4 actors (flip chains, recombination and "
        "spectral chains, optimizers, diversity collectors, enumerations, plan histories, seed-plan generators, grids) that share graphs, root plans, "
        "statistic objects or plan classes; a seeded scheduler interleaves their operations, nests one inside another's "
        "callbacks and abandons some; every observation and the number of draws consumed must equal those of the same actor "
        "alone in a fresh process with the same draws; non-trivial if there were nested or interleaved switches")
ASSUMPTIONS = ["constraint objects that remember their first plan are not shared", "statistics bound to one graph's data by the caller are not reused on another graph"]

KINDS = ["flips", "flips", "flips", "recom", "reversible", "spectral", "opt", "opt", "diversity", "enumerate", "enumerate", "history", "history", "history", "seed", "grid", "geo"]


class StopHere(Exception):
    pass


class Boom(Exception):
    pass


def gen(rng, tier, i):
    sp = world.spec(rng, 4, rng.choice([6, 9, 12]), 2, 4, wide=.02)
    how = rng.choice(["one", "twin", "twin", "other"])
    sp2 = dict(sp, seed=rng.randrange(1 << 30)) if how == "twin" else world.spec(rng, 4, 9, 2, 4, wide=.02)
    actors = [dict(kind=rng.choice(KINDS), seed=rng.randrange(1 << 30), world=0 if how == "one" else rng.randrange(2), root=rng.choice(["shared", "own", "own"]),
                   ups=rng.choice(["shared", "shared", "own"]), graph=rng.choice(["shared", "shared", "own"]), steps=rng.randint(2, 10) if rng.random() > .01 else 60,
                   boom=rng.choice([None, None, None, rng.randint(2, 12)])) for _ in range(rng.randint(2, 4))]
    sched = [[rng.choice(["step"] * 12 + ["run", "abandon"]), rng.randrange(1 << 30)] for _ in range(rng.randint(8, 60))]
    return dict(worlds=[sp] if how == "one" else [sp, sp2], actors=actors, sched=sched, nest=rng.choice([0, .1, .3, .6]),
                stats=rng.sample(stats.NAMES, rng.randint(2, 9)))


class Setup:
    """Everything the actors share; built the same way in every process."""

    def __init__(self, plan):
        from gerrychain import Partition
        self.plan = plan
        self.worlds = [world.World(s) for s in plan["worlds"]]
        names = list(plan["stats"])
        base = ["cut_edges", "cut_edges_by_part", "pop", "csplit"]
        need = base + [n for n in names if n not in base]
        for n in names:
            need += [d for d in DEPS.get(n, []) if d not in need]
        self.names = names
        if len(self.worlds) > 1:                         # objects bound to one world's data are not shared across
            need = [n for n in need if n not in ("dt_dict", "dt_series")]
            self.names = [n for n in names if n not in ("dt_dict", "dt_series")]
        self.need = need
        self.graphs = [w.graph() for w in self.worlds]
        self.ups = stats.make(self.worlds[0], need)
        self.roots = [Partition(g, dict(w.start), dict(self.ups), use_default_updaters=False) for g, w in zip(self.graphs, self.worlds)]


def actor(S, k, spec, point):
    """A generator: one observation per operation.  point() is called in every callback."""
    from functools import partial
    from gerrychain import Partition, MarkovChain, GeographicPartition, constraints as C, accept as A
    from gerrychain.grid import Grid
    from gerrychain.meta.diversity import collect_diversity_stats
    from gerrychain.metagraph import all_valid_states_one_flip_away, all_valid_flips
    from gerrychain.optimization import SingleMetricOptimizer
    from gerrychain.proposals import recom, reversible_recom, spectral_recom
    from gerrychain import tree as T
    r = RealRandom(spec["seed"])
    w = S.worlds[spec["world"]]
    parts = w.parts
    names = S.names
    g = S.graphs[spec["world"]] if spec["graph"] == "shared" else w.graph()
    ups = S.ups if spec["ups"] == "shared" else stats.make(w, S.need)
    if spec["root"] == "shared":
        root = S.roots[spec["world"]]
    elif spec["kind"] == "geo":
        root = GeographicPartition(g, dict(w.start))
        names = ["perimeter", "exterior_boundaries", "interior_boundaries", "boundary_nodes", "cut_edges", "area", "cut_edges_by_part"]
    else:
        root = Partition(g, dict(w.start), dict(ups), use_default_updaters=False)
    calls = [0]

    def cb(where):
        calls[0] += 1
        if calls[0] == spec["boom"]:
            raise Boom()
        point(where)

    def look(p, some=None):
        a = {v: p.assignment[v] for v in w.nodes}
        out = [sorted((repr(v), repr(x)) for v, x in a.items())]
        if w.contiguous(w.start, parts):
            pass
        for n in (r.sample(names, min(len(names), some if some is not None else r.randint(0, 3)))):
            if stats.usable(n, w, a, parts) and stats.parent_chain_usable(n, w, p, parts):
                out.append((n, stats.freeze(p[n])))
        return out

    L = hist.lib_proposals()
    refused = [0]

    def own(p):
        return p.flip(hist.flips_for(r.choice(hist.MOVES), w, {v: p.assignment[v] for v in w.nodes}, parts, r))
    pname = r.choice(sorted(L) + ["own"])
    tot = w.total()
    target = tot / len(parts)

    def proposal(p):
        cb("proposal")
        if refused[0] > 30:
            return p.flip({})
        if pname == "own" or not p["cut_edges"]:
            return own(p)
        return L[pname](p)

    def con(p):
        cb("constraint")
        refused[0] += 1
        return True

    def acc(p):
        cb("accept")
        refused[0] = 0
        return r.random() < .7
    lib = r.choice([[], [], [C.contiguous], [C.UpperBound(lambda p: (cb("bound"), len(p["cut_edges"]))[1], len(w.edges))],
                    [C.SelfConfiguringLowerBound(lambda p: (cb("bound"), len(p["cut_edges"]))[1], 2)],
                    [C.WithinPercentRangeOfBounds(lambda p: len(p["cut_edges"]) + 1, 80)], [C.no_vanishing_districts], [C.single_flip_contiguous], [C.contiguous_bfs], [C.within_percent_of_ideal_population(root, 2.5, "pop") if "pop" in root.updaters and tot > 0 else con]])
    accept = r.choice([acc, acc, A.always_accept, A.cut_edge_accept, A.cut_edge_accept])

    def accept2(p):
        refused[0] = 0
        return accept(p)
    n = spec["steps"]
    kind = spec["kind"]
    if kind in ("flips", "geo"):
        ch = MarkovChain(proposal, [con] + lib, accept2, root, n)
        for rnd in range(r.choice([1, 1, 2])):
            for p in (ch.with_progress_bar() if spec.get("bar") else ch):
                yield look(p)
    elif kind in ("recom", "reversible", "spectral"):
        if tot <= 0 or len(parts) < 2:
            return
        if kind == "recom":
            meth = partial(r.choice([T.bipartition_tree, T.bipartition_tree_random]), max_attempts=5,
                           spanning_tree_fn=r.choice([T.random_spanning_tree, T.uniform_spanning_tree]))
            base = partial(recom, pop_col="pop", pop_target=target, epsilon=.8, method=meth, region_surcharge=r.choice([None, {"county": 1}]))
        elif kind == "reversible":
            base = partial(reversible_recom, pop_col="pop", pop_target=target, epsilon=.8, M=len(w.nodes))
        else:
            base = partial(spectral_recom, weight_type=r.choice([None, "random"]))

        def rec(p):
            cb("proposal")
            a = {v: p.assignment[v] for v in w.nodes}
            if not p["cut_edges"] or not w.contiguous(a, parts):
                return p.flip({v: x for v, x in w.start.items() if a[v] != x})
            try:
                return base(p)
            except RuntimeError:
                return p.flip({})
        for p in MarkovChain(rec, con, r.choice([acc, accept2]), root, n):
            yield look(p)
    elif kind == "opt":
        def score(p):
            cb("score")
            return len(p["cut_edges"])
        o = SingleMetricOptimizer(proposal, r.choice([con, [con]]), root, score, maximize=r.random() < .5)
        bar = bool(spec.get("bar"))
        runs = [lambda: o.short_bursts(3, max(1, n // 3), with_progress_bar=bar), lambda: o.tilted_run(n, .4, with_progress_bar=bar),
                lambda: o.simulated_annealing(n, o.jumpcycle_beta_function(2, 2), .5, with_progress_bar=bar),
                lambda: o.tilted_short_bursts(2, max(1, n // 2), .5, with_progress_bar=bar), lambda: o.variable_length_short_bursts(n, 1, with_progress_bar=bar)]
        for p in r.choice(runs)():
            yield [look(p), o.best_score, sorted((repr(v), repr(o.best_part.assignment[v])) for v in w.nodes)]
    elif kind == "diversity":
        for p, st in collect_diversity_stats(MarkovChain(proposal, con, acc, root, n)):
            yield [look(p), st.unique_plans, st.unique_districts, st.steps_taken]
    elif kind == "enumerate":
        m = r.choice([0, 1, 3])
        p = root
        for _ in range(m):
            p = own(p)
        for q in all_valid_states_one_flip_away(p, r.choice([con, [con], C.Validator([con])])):
            yield look(q)
        yield [sorted(map(repr, f.items())) for f in all_valid_flips(p, [con])]
    elif kind == "history":
        plans = [root]
        for _ in range(2 * n):
            x = r.random()
            p = r.choice(plans)
            if x < .5:
                plans.append(own(p))
                yield look(plans[-1])
            elif x < .6 and len(plans) > 2:
                plans.remove(r.choice(plans[1:]))
                yield "dropped"
            elif x < .7 and p is not root:
                p.parent = None
                yield "erased"
            else:
                yield look(p, 4)
    elif kind == "seed":
        if tot <= 0:
            return
        for _ in range(max(1, n // 3)):
            f = r.choice([T.recursive_tree_part, T.recursive_seed_part])
            meth = partial(T.bipartition_tree, max_attempts=8, spanning_tree_fn=r.choice([T.random_spanning_tree, T.uniform_spanning_tree]))
            try:
                yield sorted(map(repr, f(g, list(parts), target, "pop", .8, method=meth).items()))
            except Exception as e:
                yield type(e).__name__
    elif kind == "grid":
        gr = Grid((r.randint(2, 4), r.randint(2, 4)), with_diagonals=r.random() < .3)
        for p in MarkovChain(lambda p: (cb("proposal"), L["random"](p) if p["cut_edges"] else p.flip({}))[1], con, acc, gr, n):
            yield [sorted(map(repr, p.assignment.items())), stats.freeze(p["perimeter"]), stats.freeze(p["population"]), stats.freeze(p["cut_edges_by_part"]), str(p)]


def solo(plan, k):
    """The observations of actor k alone, in a process of its own."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            SIM.reset(plan["seed"])
            SIM.set_budget(3 * 10 ** 6)
            S = Setup(plan)
            st = SIM.stream = Stream(seed_of("actor", plan["actors"][k]["seed"]))
            obs = []
            g = actor(S, k, plan["actors"][k], lambda where: None)
            step(g, obs, st)
            while obs[-1][0] == "o":
                step(g, obs, st)
            data = json.dumps(obs).encode()
            off = 0
            while off < len(data):
                off += os.write(wr, data[off:])
            code = 0
        except BaseException:
            import traceback
            os.write(wr, json.dumps([["harness", traceback.format_exc()[-3000:]]]).encode())
        finally:
            os._exit(code)
    os.close(wr)
    chunks = []
    while True:
        b = os.read(rd, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(rd)
    os.waitpid(pid, 0)
    out = json.loads(b"".join(chunks) or b'[["harness", "no answer"]]')
    if out and out[-1][0] == "harness":
        raise RuntimeError("solo actor: " + out[-1][1])
    return out


def step(g, obs, st):
    """One operation of an actor: its observation, how it ended, and the draws used so far."""
    try:
        x = next(g)
        obs.append(["o", canon(x), st.n])
    except StopIteration:
        obs.append(["end", "", st.n])
    except Exception as e:
        obs.append(["error", type(e).__name__, st.n])


def execute(plan, ctx):
    expected = [solo(plan, k) for k in range(len(plan["actors"]))]
    SIM.set_budget(3 * 10 ** 6)
    S = Setup(plan)
    ctx.sig([w.edges for w in S.worlds])
    n = len(plan["actors"])
    gens, obs, streams = [None] * n, [[] for _ in range(n)], [Stream(seed_of("actor", a["seed"])) for a in plan["actors"]]
    dead, stack = set(), []
    srng = RealRandom(seed_of("sched", plan["seed"]))
    switches = [0, 0]

    def advance(k):
        keep, SIM.stream = SIM.stream, streams[k]
        stack.append(k)
        try:
            if gens[k] is None:
                gens[k] = actor(S, k, plan["actors"][k], lambda where: point(k, where))
            step(gens[k], obs[k], streams[k])
        finally:
            stack.pop()
            SIM.stream = keep
        ctx.step()
        j = len(obs[k]) - 1
        got, want = obs[k][j], expected[k][j] if j < len(expected[k]) else None
        ctx.check(got == want, "influenced", lambda: "actor %d (%s), operation %d: together with the others %s; alone %s" % (
            k, plan["actors"][k]["kind"], j, got, want))
        ctx.event(k, got[0], got[2])
        if got[0] != "o":
            dead.add(k)
            if got[0] == "error":
                ctx.fault("actor-failed:" + got[1])

    def point(k, where):
        """Preemption inside a callback of actor k."""
        while len(stack) < 3 and srng.random() < plan["nest"]:
            c = [j for j in range(n) if j not in dead and j not in stack]
            if not c:
                return
            j = srng.choice(c)
            switches[1] += 1
            ctx.sig("nest", k, where, j)
            advance(j)

    last = None
    for op, seed in plan["sched"]:
        r = RealRandom(seed)
        c = [j for j in range(n) if j not in dead]
        if not c:
            break
        k = r.choice(c)
        ctx.sig(op, k)
        if last is not None and k != last:
            switches[0] += 1
        last = k
        if op == "abandon":
            if gens[k] is not None:
                gens[k].close()
                ctx.fault("abandoned")
            dead.add(k)
        elif op == "run":
            while k not in dead:
                advance(k)
        else:
            advance(k)
    for k in range(n):                                    # the rest, to completion
        while k not in dead:
            advance(k)
    for k in range(n):
        ctx.state([S.worlds[plan["actors"][k]["world"]].edges, [o[1] for o in obs[k]][-1:]])
    ctx.fault("nested-switch", switches[1])
    ctx.count("interleaved-switches", switches[0])
    ctx.nontrivial = switches[0] + switches[1] > 0


def _leak():
    """A plan with an extra statistic gives it to a plan created without."""
    from gerrychain import Partition, Graph
    import networkx
    g = Graph.from_networkx(networkx.path_graph(3))
    Partition(g, {0: 0, 1: 0, 2: 1}, {"sim_extra": lambda p: 42})
    q = Partition(g, {0: 0, 1: 1, 2: 1})
    return "sim_extra" in q.updaters


def _single():
    """Two chains constrained by the library's ready-made don't-get-worse constraint share one bound."""
    from gerrychain import Partition, Graph
    from gerrychain.constraints import no_more_discontiguous
    import networkx
    g = Graph.from_networkx(networkx.path_graph(4))
    a = Partition(g, {0: 0, 1: 0, 2: 1, 3: 1}, use_default_updaters=False)
    b = Partition(g, {0: 0, 1: 1, 2: 0, 3: 1}, use_default_updaters=False)
    return no_more_discontiguous(a) is True and no_more_discontiguous(b) is False


KNOWN = {"default-updaters-shared": _leak, "ready-made-bounds-shared": _single}


def simpler(plan):
    for j, sp in enumerate(plan["worlds"]):
        for n in range(4, sp["n"]):
            yield dict(plan, worlds=plan["worlds"][:j] + [dict(sp, n=n)] + plan["worlds"][j + 1:])
        for f, v in (("shape", "path"), ("labels", "int"), ("plabels", "int"), ("pops", "unit"), ("weight", False), ("k", 2)):
            if sp[f] != v:
                yield dict(plan, worlds=plan["worlds"][:j] + [dict(sp, **{f: v})] + plan["worlds"][j + 1:])
    if plan["nest"]:
        yield dict(plan, nest=0)
    for j, a in enumerate(plan["actors"]):
        for f, v in (("boom", None), ("root", "own"), ("ups", "own"), ("graph", "own"), ("steps", 2)):
            if a[f] != v:
                yield dict(plan, actors=plan["actors"][:j] + [dict(a, **{f: v})] + plan["actors"][j + 1:])
    if plan["stats"]:
        for j in range(len(plan["stats"])):
            yield dict(plan, stats=plan["stats"][:j] + plan["stats"][j + 1:])
