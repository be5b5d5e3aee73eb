"""C18: one-flip neighbourhoods, enumerated while other work runs on the same plan."""
from ..seam import RealRandom, SIM, Stream
from .. import world, hist, stats, activity
from ..core import seed_of
from ..boom import BOOM, boom

RUNS = {"quick": 6000, "thorough": 80000}
SHRINK = ["moves", "tasks", "sched"]
RULE = ("one run = one world, a plan reached by random moves, several pending enumerations (states, flips, degree) with constraints given "
        "as list, callable, one-shot iterator or Validator, advanced item by item by a seeded schedule mixed with chains, statistics "
        "reads, moves, ancestry erasure, abandonment and constraints that raise and are retried; results compared with the reference "
        "neighbourhood; non-trivial if something else ran between two items of an enumeration, or a fault hit")
ASSUMPTIONS = ["library contiguity constraints are used from contiguous plans only", "the enumeration may name one move more than once"]


def gen(rng, tier, i):
    moves = [[rng.choice(hist.MOVES), rng.randrange(1 << 30)] for _ in range(rng.choice([0, 0, 1, 3, 6]))]
    tasks = [dict(kind=rng.choice(["states", "states", "flips", "degree", "raw"]), seed=rng.randrange(1 << 30),
                  cons=rng.sample(["pop", "cut", "contig", "sfc", "vanish", "own", "own2", "parity"], rng.choice([0, 1, 1, 2, 3])),
                  form=rng.choice(["list", "callable", "iter", "validator", "tuple"]), boom=rng.choice([None, None, None, rng.randint(1, 12)]),
                  on=rng.randrange(3)) for _ in range(rng.randint(1, 4))]
    sched = [[rng.choice(["next"] * 12 + ["drain", "close", "read", "activity", "child", "erase", "look"]), rng.randrange(1 << 30)]
             for _ in range(rng.randint(4, 50))]
    return dict(world=world.spec(rng, 3, rng.choice([6, 9, 14]), 2, 4, wide=.02, one=.02), moves=moves, tasks=tasks, sched=sched)


class Task:
    pass


def execute(plan, ctx):
    from gerrychain import Partition
    from gerrychain.constraints import (Validator, contiguous, single_flip_contiguous, no_vanishing_districts, UpperBound,
                                        within_percent_of_ideal_population)
    from gerrychain.metagraph import all_cut_edge_flips, all_valid_flips, all_valid_states_one_flip_away, metagraph_degree
    w = world.World(plan["world"])
    parts = w.parts
    names = ["cut_edges", "population", "cut_edges_by_part"]
    ups = dict(stats.make(w, ["cut_edges", "pop", "cut_edges_by_part"]))
    from gerrychain.updaters import Tally
    ups["population"] = Tally("pop", alias="population")
    graph = w.graph()
    bases = []
    p0 = Partition(graph, dict(w.start), ups, use_default_updaters=False)
    bases.append(hist.Slot(p0, dict(w.start)))
    cur = bases[0]
    for kind, seed in plan["moves"]:
        r = RealRandom(seed)
        f = hist.flips_for(kind, w, cur.asg, parts, r, cur.prev)
        cur = hist.Slot(cur.plan.flip(f), hist.apply(cur.asg, f), dict(cur.asg))
        bases.append(cur)
    bases = [bases[0], bases[-1], Partition and bases[len(bases) // 2]]
    ctx.sig(w.edges)
    tot = w.total()

    def constraint(name, t):
        """(library or user callable, reference predicate on an assignment)"""
        b = t.base
        lim = t.lim
        pops = lambda a: {p: sum(w.attr[v]["pop"] for v in s) for p, s in w.level(a, parts).items()}
        if name == "pop":
            if set(b.asg.values()) != set(parts) or tot <= 0:
                return None
            pct = .5
            ideal = tot / len(parts)
            return (within_percent_of_ideal_population(b.plan, pct),
                    lambda a: all((1 - pct) * ideal <= x <= (1 + pct) * ideal for x in pops(a).values()))
        if name == "cut":
            return UpperBound(lambda p: len(p["cut_edges"]), lim), lambda a: len(w.cut(a)) <= lim
        if name in ("contig", "sfc"):
            if not w.contiguous(b.asg, parts):
                return None
            return contiguous if name == "contig" else single_flip_contiguous, lambda a: w.contiguous(a, parts)
        if name == "vanish":
            if set(b.asg.values()) != set(parts):
                return None
            return no_vanishing_districts, lambda a: set(a.values()) == set(parts)
        if name == "own":
            return (lambda p: len(p.parts[parts[0]]) <= lim), lambda a: len(w.level(a, parts)[parts[0]]) <= lim
        if name == "own2":
            v = t.node
            q = t.base.asg[v]
            return (lambda p: p.assignment[v] == q), lambda a: a[v] == q
        v = t.node
        if name == "parity":
            ok = lambda x: int(x * 4) % 3 != 0
            return (lambda p: ok(sum(w.attr[u]["pop2"] for u in p.parts[parts[-1]]))), \
                   lambda a: ok(sum(w.attr[u]["pop2"] for u in w.level(a, parts)[parts[-1]]))

    def begin(t):
        sp = t.sp
        r = RealRandom(sp["seed"])
        t.base = bases[sp["on"]]
        t.lim = r.randint(0, len(w.edges))
        t.node = r.choice(w.nodes)
        pairs = [c for c in (constraint(n, t) for n in sp["cons"]) if c is not None]
        funcs = [c[0] for c in pairs]
        t.calls = 0
        want = sp["boom"] if t.tries == 0 else None
        if want:
            def bomb(p):
                t.calls += 1
                if t.calls == want:
                    ctx.fault("constraint-raised")
                    raise boom(ctx)
                return True
            funcs = funcs + [bomb]
        t.want = {}
        for v, d in w.flips_of(t.base.asg):
            a = hist.apply(t.base.asg, {v: d})
            if all(c[1](a) for c in pairs):
                t.want[(v, d)] = a
        t.got, t.done, t.states, t.moves = set(), False, [], []
        if sp["kind"] == "raw":
            t.want = {(v, d): hist.apply(t.base.asg, {v: d}) for v, d in w.flips_of(t.base.asg)}
        f = sp["form"]
        if f == "callable":
            cons = (lambda p: all(c(p) for c in funcs))
        elif f == "iter":
            cons = iter(funcs)
        elif f == "validator":
            cons = Validator(funcs)
        elif f == "tuple":
            cons = tuple(funcs)
        else:
            cons = list(funcs)
        t.cons = cons
        if sp["kind"] == "states":
            t.it = iter(all_valid_states_one_flip_away(t.base.plan, cons))
        elif sp["kind"] == "flips":
            t.it = iter(all_valid_flips(t.base.plan, cons))
        elif sp["kind"] == "raw":
            t.it = iter(all_cut_edge_flips(t.base.plan))
        else:
            t.it = None

    def fin(t):
        t.done = True
        miss = set(t.want) - t.got
        ctx.check(not miss, "missing", lambda: "%s: moves %r are missing (constraints %r, given as %s) from %r" % (
            t.sp["kind"], sorted(miss, key=repr)[:4], t.sp["cons"], t.sp["form"], t.base.asg))

    def take(t, x):
        ctx.step()
        if t.sp["kind"] == "states":
            a = hist.read_asg(ctx, x, w)
            d = {v: a[v] for v in w.nodes if a[v] != t.base.asg[v]}
            ctx.check(set(x.parts.keys()) == set(parts), "names", "district names changed")
            ctx.check(all(set(x.parts[p]) == s for p, s in w.level(a, parts).items()), "parts", "district sets of an enumerated plan are wrong")
            if len(t.states) < 30:
                t.states.append((x, a))
            for n in ("cut_edges", "population"):
                if ctx.rng.random() < .2:
                    if n == "cut_edges":
                        ctx.check({frozenset(e) for e in x[n]} == w.cut(a), "stat", "cut edges of an enumerated plan are wrong")
                    else:
                        ctx.check(all(abs(x[n][p] - sum(w.attr[v]["pop"] for v in s)) < 1e-9 for p, s in w.level(a, parts).items()), "stat", "population of an enumerated plan is wrong")
        else:
            d = dict(x)
            if len(t.moves) < 60:
                t.moves.append((x, d))
        ctx.check(len(d) == 1, "move", lambda: "%r is not a move of one node" % (d,))
        m = next(iter(d.items()))
        ctx.check(m in t.want, "extra", lambda: "%s: move %r is not in the neighbourhood (constraints %r, given as %s) of %r" % (
            t.sp["kind"], m, t.sp["cons"], t.sp["form"], t.base.asg))
        t.got.add(m)
        ctx.event(t.k, m)

    def unchanged(t):
        for x, d in t.moves:
            ctx.check(dict(x) == d, "changed", lambda: "%s: the move %r, already handed out, now reads %r" % (t.sp["kind"], d, dict(x)))

    def advance(t, n=1):
        SIM.stream = t.stream
        SIM.set_budget(100000)
        for _ in range(n):
            if t.done:
                return
            try:
                if t.it is None:
                    deg = metagraph_degree(t.base.plan, t.cons)
                    ctx.step()
                    ctx.check((deg == 0) == (not t.want) and len(t.want) <= deg <= 2 * len(w.edges), "degree", lambda: "degree %r for %d moves" % (deg, len(t.want)))
                    t.got = set(t.want)
                    fin(t)
                else:
                    take(t, next(t.it))
            except StopIteration:
                fin(t)
            except BOOM:
                t.tries += 1
                begin(t)                              # retried: everything again
                ctx.count("retries")

    tasks = []
    for k, sp in enumerate(plan["tasks"]):
        t = Task()
        t.sp, t.k, t.tries, t.stream = sp, k, 0, Stream(seed_of("t", sp["seed"]))
        begin(t)
        tasks.append(t)
    slots = list({id(b): b for b in bases}.values())
    mixed = 0
    for op, seed in plan["sched"]:
        r = RealRandom(seed)
        live = [t for t in tasks if not t.done]
        if not live:
            break
        t = r.choice(live)
        part = any(x.got and not x.done for x in tasks)
        ctx.sig(op, t.k)
        if op == "next":
            advance(t, r.choice([1, 1, 2, 5]))
            mixed += part and sum(1 for x in tasks if x.got) > 1
        elif op == "drain":
            advance(t, 10 ** 6)
        elif op == "close":
            if t.it is not None:
                t.it.close()
                ctx.fault("abandoned")
                t.tries += 1
                begin(t)
        else:
            SIM.stream = Stream(seed_of("o", seed))
            SIM.set_budget(300000)
            s = r.choice(slots)
            mixed += part
            if op == "read":
                for n in r.sample(["cut_edges", "cut_edges_by_part", "pop"], 2):
                    stats.read(ctx, w, s, n, parts)
            elif op == "activity":
                activity.run(r.choice(activity.KINDS), w, s.plan, parts, r, steps=4)
                ctx.count("activities")
            elif op == "child":
                f = hist.flips_for(r.choice(hist.MOVES), w, s.asg, parts, r, s.prev)
                q = s.plan.flip(f)
                if r.random() < .5:
                    q["cut_edges"]
            elif op == "erase" and not any(c in ("contig", "sfc", "vanish") for x in tasks for c in x.sp["cons"]):
                s.plan.parent = None
                ctx.fault("ancestry-erased")
            elif op == "look":
                for x in tasks:
                    for q, a in x.states:
                        ctx.check(hist.read_asg(ctx, q, w) == a, "changed", "an enumerated plan changed")
                    unchanged(x)
        ctx.state([w.edges, t.base.asg, sorted(map(repr, t.got))])
    for t in tasks:
        advance(t, 10 ** 6)
        if not t.done:
            advance(t, 10 ** 6)
        for q, a in t.states:
            ctx.check(hist.read_asg(ctx, q, w) == a, "changed", "an enumerated plan changed")
        unchanged(t)
    for s in slots:
        hist.check_views(ctx, s.plan, w, s.asg, parts)
    ctx.nontrivial = mixed > 0 or bool(ctx.faults)


def simpler(plan):
    for n in range(3, plan["world"]["n"]):
        yield dict(plan, world=dict(plan["world"], n=n))
    for f, v in (("shape", "path"), ("labels", "int"), ("plabels", "int"), ("pops", "unit"), ("weight", False), ("k", 2)):
        if plan["world"][f] != v:
            yield dict(plan, world=dict(plan["world"], **{f: v}))
    for j, t in enumerate(plan["tasks"]):
        for f, v in (("boom", None), ("cons", []), ("form", "list"), ("kind", "states"), ("on", 0)):
            if t[f] != v:
                yield dict(plan, tasks=plan["tasks"][:j] + [dict(t, **{f: v})] + plan["tasks"][j + 1:])
