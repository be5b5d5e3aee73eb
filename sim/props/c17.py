"""C17: diversity statistics over interleaved, abandoned, failing and restarted chains."""
from ..seam import RealRandom, SIM, Stream
from .. import world, hist, stats
from ..core import seed_of
from ..boom import BOOM, boom

RUNS = {"quick": 8000, "thorough": 100000}
SHRINK = ["tasks", "sched"]
RULE = ("one run = one world and several wrapped iterations (chains with library or own proposals, optimizer runs, lists, generators, thinned, shuffled and merged chains), "
        "stepped one item at a time by a seeded schedule, closed early, failing at a chosen step, restarted on the same chain object; "
        "every item is compared with what the wrapped iteration itself produced and with a reference count; some are repeated "
        "unwrapped with the same draws; non-trivial if at least two tasks interleaved or a fault hit")
ASSUMPTIONS = ["distinct-plan counts are judged while all plans seen have connected (or empty) districts",
               "a district that is empty may or may not be counted as one more district"]


def gen(rng, tier, i):
    if i % 80 == 9:                                      # long wrapped iterations that return to hundreds of earlier plans
        t = dict(kind="loop", seed=rng.randrange(1 << 30), steps=rng.choice([700, 1200, 2000]), fail=None, con="contig", again=False, solo=False, graph=0, empties=False)
        return dict(world=world.spec(rng, 12, 40, 2, 4, shapes=["grid", "planar", "ladder", "diag"]), tasks=[t], sched=["burstnext"] * 12)
    nt = rng.randint(1, 4)
    tasks = [dict(kind=rng.choice(["chain", "chain", "chain", "recom", "burst", "list", "gen", "thin", "mixed", "shuffled", "loop"]), seed=rng.randrange(1 << 30),
                  steps=rng.choice([1, 3, 8, 20, 40] * 20 + [600, 600, 2000]), fail=rng.choice([None, None, None, rng.randint(1, 12)]),
                  con=rng.choice(["none", "contig", "contig", "nonempty"]), again=rng.random() < .3, solo=rng.random() < .4,
                  graph=rng.randrange(2), empties=rng.random() < .3) for _ in range(nt)]
    sched = [rng.choice(["next"] * 14 + ["close", "burstnext", "burstnext", "look"]) for _ in range(rng.randint(5, 90))]
    return dict(world=world.spec(rng, 3, rng.choice([6, 9, 14]), 2, 4, shapes=world.ISLANDS, wide=.02, one=.02), tasks=tasks, sched=sched)


class Task:
    pass


def execute(plan, ctx):
    from functools import partial
    from gerrychain import Partition, MarkovChain
    from gerrychain.meta.diversity import collect_diversity_stats
    from gerrychain.proposals import propose_random_flip, recom
    from gerrychain.constraints import contiguous
    from gerrychain.optimization import SingleMetricOptimizer
    from gerrychain.accept import always_accept
    from gerrychain.tree import bipartition_tree
    w = world.World(plan["world"])
    parts = w.parts
    graphs = [w.graph(), w.graph()]
    ups = stats.make(w, ["cut_edges", "pop"])
    plans = [Partition(g, dict(w.start), ups, use_default_updaters=False) for g in graphs]
    ctx.sig(w.edges)
    tot = w.total()

    def key(asg):
        return frozenset(frozenset(s) for s in w.level(asg, parts).values() if s)

    def source(t):
        """A fresh underlying iterable (or the same chain object, for a restart)."""
        sp = t.sp
        r = t.r = RealRandom(sp["seed"])
        start = plans[sp["graph"]]

        def con(p):
            if sp["con"] == "none":
                return True
            asg = {v: p.assignment[v] for v in w.nodes}
            lv = w.level(asg, parts)
            if sp["con"] == "contig" and not all(w.connected(s) or (sp["empties"] and not s) for s in lv.values()):
                return False
            return sp["empties"] or all(lv.values())
        tries = [0]

        def proposal(p):
            tries[0] += 1
            p["cut_edges"]                               # the same reads with and without the statistics
            asg = {v: p.assignment[v] for v in w.nodes}
            if tries[0] % 25 == 0:
                return p.flip({})
            if sp["con"] == "none" and t.r.random() < .3:
                return p.flip(hist.flips_for(t.r.choice(hist.MOVES), w, asg, parts, t.r))
            if t.r.random() < .1:                        # a proposal made of two moves
                q = propose_random_flip(p) if p["cut_edges"] else p
                q["cut_edges"]
                return propose_random_flip(q) if q["cut_edges"] else q
            if t.r.random() < .15:                       # relabelling: the same plan
                return p.flip(hist.flips_for(t.r.choice(["swap", "rotate"]), w, asg, parts, t.r))
            return propose_random_flip(p) if p["cut_edges"] else p.flip({})
        if sp["kind"] in ("chain", "gen", "list"):
            ch = MarkovChain(proposal, [con], lambda p: t.r.random() < .8, start, sp["steps"])
            if sp["kind"] == "chain":
                return ch
            if sp["kind"] == "gen":
                return (p for p in ch)
            return list(ch)
        if sp["kind"] in ("thin", "mixed", "shuffled", "loop"):  # plans that are not each made from the one before
            ch = MarkovChain(proposal, [con], lambda p: t.r.random() < .8, start, sp["steps"])
            every = 2 + sp["seed"] % 4
            if sp["kind"] == "thin":
                return (p for j, p in enumerate(ch) if j % every == 0)
            if sp["kind"] == "shuffled":
                ps = list(ch)
                t.r.shuffle(ps)
                return ps
            if sp["kind"] == "loop":                     # everything comes back, in the same order or another
                ps = list(ch)
                qs = list(ps)
                if sp["seed"] % 3 == 0:
                    t.r.shuffle(qs)
                return ps + qs
            other = MarkovChain(proposal, [con], lambda p: t.r.random() < .5, start, sp["steps"])
            return (p for pq in zip(ch, other) for p in pq)
        if sp["kind"] == "recom":
            if tot <= 0 or len(parts) < 2:
                return [start]
            meth = partial(bipartition_tree, max_attempts=3)

            def rec(p):
                p["cut_edges"]
                try:
                    return recom(p, "pop", tot / len(parts), .9, method=meth)
                except Exception:
                    return p.flip({})
            return MarkovChain(rec, [con], always_accept, start, min(sp["steps"], 10))
        o = SingleMetricOptimizer(proposal, con, start, lambda p: len(p["cut_edges"]), maximize=sp["seed"] % 2 == 0)
        return o.short_bursts(3, max(1, sp["steps"] // 3))

    def begin(t, base=None):
        t.src = base if base is not None else source(t)
        t.seen, t.out, t.done, t.failed = [], [], False, False
        t.plans, t.dists, t.judge, t.empties = set(), set(), True, 0

        class Tap:
            """Records what the wrapped iteration produced; fails where told to."""

            def __iter__(self):
                for j, p in enumerate(t.src):
                    if t.sp["fail"] is not None and j + 1 == t.sp["fail"]:
                        ctx.fault("iteration-failed")
                        raise boom(ctx)
                    t.seen.append(p)
                    yield p
        t.it = iter(collect_diversity_stats(Tap()))

    def item(t, val):
        ctx.step()
        ctx.check(isinstance(val, tuple) and len(val) == 2, "shape", "item %r is not a pair" % (val,))
        p, st = val
        n = len(t.out)
        ctx.check(n < len(t.seen) and p is t.seen[n], "plans", lambda: "item %d is not the wrapped iteration's plan number %d" % (n, n))
        asg = hist.read_asg(ctx, p, w)
        lv = w.level(asg, parts)
        t.dists |= {frozenset(s) for s in lv.values() if s}
        if any(not s for s in lv.values()):
            t.empties = 1
        t.plans.add(key(asg))
        if not all(w.connected(s) for s in lv.values() if s):
            t.judge = False
        ctx.check(st.steps_taken == n + 1, "steps", lambda: "steps_taken %r, expected %d" % (st.steps_taken, n + 1))
        ctx.check(st.unique_districts in (len(t.dists), len(t.dists) + t.empties), "districts", lambda: "unique_districts %r at step %d, expected %d%s" % (
            st.unique_districts, n + 1, len(t.dists), " (+1 for empty)" if t.empties else ""))
        if t.judge:
            ctx.check(st.unique_plans == len(t.plans), "plans-count", lambda: "unique_plans %r at step %d, expected %d" % (st.unique_plans, n + 1, len(t.plans)))
            ctx.count("plan-counts")
        ctx.check(st.unique_plans <= n + 1, "plans-count", lambda: "%r distinct plans in %d steps" % (st.unique_plans, n + 1))
        t.out.append((p, st, (st.unique_plans, st.unique_districts, st.steps_taken), asg))
        ctx.event(sorted(asg.items(), key=repr), st.unique_plans, st.unique_districts)
        if n < 100:
            ctx.state([w.edges, sorted(map(sorted, map(lambda s: list(map(repr, s)), t.dists))), st.steps_taken])

    def look(t):
        for p, st, vals, asg in t.out:
            ctx.check((st.unique_plans, st.unique_districts, st.steps_taken) == vals, "report-changed", lambda: "a reported value changed: %r, was %r" % (st, vals))
            ctx.check(hist.read_asg(ctx, p, w) == asg, "plan-changed", "a plan already reported changed")

    def advance(t):
        SIM.stream = t.stream
        SIM.set_budget(200000)
        try:
            item(t, next(t.it))
        except StopIteration:
            t.done = True
            ctx.check(not t.sp["fail"] or len(t.seen) < t.sp["fail"], "swallowed", "the wrapped iteration's error became an ordinary end")
            ctx.check(len(t.out) == len(t.seen), "count", lambda: "%d items for %d plans" % (len(t.out), len(t.seen)))
            if t.sp["kind"] in ("chain", "recom"):
                ctx.check(len(t.out) == len(t.src) if hasattr(t.src, "__len__") else True, "count", "wrong number of plans")
        except BOOM:
            t.done = t.failed = True
            ctx.check(len(t.out) == len(t.seen), "lost", lambda: "the failure lost %d plans" % (len(t.seen) - len(t.out)))

    tasks = []
    for k, sp in enumerate(plan["tasks"]):
        t = Task()
        t.sp, t.k, t.rounds = sp, k, 0
        t.stream = Stream(seed_of("t", sp["seed"]))
        SIM.stream = t.stream
        SIM.set_budget(200000)
        begin(t)
        tasks.append(t)
    last, switches = None, 0
    for op in plan["sched"]:
        live = [t for t in tasks if not t.done]
        if not live:
            break
        t = ctx.rng.choice(live)
        if last is not None and last is not t:
            switches += 1
        last = t
        ctx.sig(op, t.k)
        if op == "next":
            advance(t)
        elif op == "burstnext":
            for _ in range(5 if t.sp["steps"] < 99 else 400):
                if not t.done:
                    advance(t)
        elif op == "look":
            look(t)
        else:
            t.it.close()
            t.done = True
            ctx.fault("abandoned")
            if t.sp["again"] and t.rounds < 2 and t.sp["kind"] in ("chain", "list"):
                t.rounds += 1
                look(t)
                t.r = RealRandom(t.sp["seed"] + t.rounds)
                begin(t, t.src)
                ctx.fault("restarted")
        if t.done and t.sp["again"] and not t.rounds and t.sp["kind"] in ("chain", "list", "recom"):
            t.rounds += 1
            look(t)
            begin(t, t.src)
            ctx.fault("restarted")
    for t in tasks:
        look(t)
    # the same run unwrapped, with the same draws
    for t in tasks:
        if t.sp["solo"] and not t.rounds and t.out and t.sp["kind"] not in ("list", "shuffled", "loop"):
            SIM.stream = Stream(seed_of("t", t.sp["seed"]))
            SIM.set_budget(200000)
            keep = t.r
            src = source(t)
            it = iter(src)
            for p, _, _, asg in t.out:
                q = next(it)
                ctx.check(hist.read_asg(ctx, q, w) == asg, "disturbed", "the chain's plans differ from those of the same chain without diversity statistics")
            ctx.count("unwrapped-comparisons")
    ctx.nontrivial = switches > 0 or bool(ctx.faults)


def simpler(plan):
    for n in range(3, plan["world"]["n"]):
        yield dict(plan, world=dict(plan["world"], n=n))
    for f, v in (("shape", "path"), ("labels", "int"), ("plabels", "int"), ("pops", "unit"), ("weight", False), ("k", 2)):
        if plan["world"][f] != v:
            yield dict(plan, world=dict(plan["world"], **{f: v}))
    for j, t in enumerate(plan["tasks"]):
        for f, v in (("fail", None), ("again", False), ("solo", False), ("steps", 3), ("kind", "chain"), ("con", "contig")):
            if t[f] != v:
                yield dict(plan, tasks=plan["tasks"][:j] + [dict(t, **{f: v})] + plan["tasks"][j + 1:])
