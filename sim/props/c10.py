"""C10: recombination with pair reselection: which pairs are tried, and the final verdict."""
from ..seam import RealRandom, SIM, Stream
from .. import world, hist, stats
from .. import recomlib as R
from ..core import seed_of
from ..boom import BOOM, boom

RUNS = {"quick": 7500, "thorough": 120000}
SHRINK = ["ops"]
RULE = ("one run = one world, one contiguous plan and a sequence of proposals whose splitter fails on a chosen set of pairs (none, "
        "some, all but one, all), by raising the reselection signal or by really exhausting its attempts, with other proposals nested "
        "inside the splitter, foreign errors and interrupts; every pair tried is recorded; non-trivial if some pair failed")
ASSUMPTIONS = ["liveness bound: 400000 random draws per proposal"]


def gen(rng, tier, i):
    ops = [dict(bad=rng.choice(["none", "some", "some", "allbut1", "all", "all", "real", "real"]), seed=rng.randrange(1 << 30),
                via=rng.choice(["recom", "recom", "class", "partial", "chain"]), nest=rng.random() < .25, boom=rng.random() < .12,
                cut=rng.choice([None] * 6 + [1, 2, 3, 5, 9]), eps=rng.choice([.25, .5, .75, .9, .05]), style=rng.choice(["plain", "plain", "extreme", "low"]))
           for _ in range(rng.randint(1, 6))]
    return dict(world=world.spec(rng, 4, 14, 2, 6, wide=.02), ops=ops)


def execute(plan, ctx):
    from functools import partial
    from gerrychain import Partition, MarkovChain
    from gerrychain.proposals import recom, ReCom
    from gerrychain.proposals.tree_proposals import MetagraphError
    from gerrychain.tree import ReselectException, bipartition_tree, PopulationBalanceError, BalanceError
    w = world.World(plan["world"])
    parts = w.parts
    if len(parts) < 2:
        return
    g = w.graph()
    cur = Partition(g, dict(w.start), stats.make(w, ["cut_edges"]), use_default_updaters=False)
    asg = dict(w.start)
    ctx.sig(w.edges, w.start)
    for op in plan["ops"]:
        r = RealRandom(op["seed"])
        pairs = sorted(w.adjacent_pairs(asg), key=lambda s: sorted(map(repr, s)))
        lv = w.level(asg, parts)
        # a target every pair may meet: half of the smallest / largest pair, wide tolerance
        chosen = r.choice(pairs)
        target = sum(w.attr[v]["pop"] for p in chosen for v in lv[p]) / 2
        if target <= 0:
            continue
        union = {frozenset(v for p in pr for v in lv[p]): pr for pr in pairs}
        if len(union) != len(pairs):
            continue
        if op["bad"] in ("none", "real"):
            bad = set()
        elif op["bad"] == "all":
            bad = set(pairs)
        elif op["bad"] == "allbut1":
            bad = set(pairs) - {r.choice(pairs)}
        else:
            bad = set(r.sample(pairs, r.randint(1, len(pairs))))
        tried, failed = [], []
        boomed = [False]
        attempts = r.choice([1, 2, 5])

        def method(graph, pop_col, pop_target, epsilon, node_repeats=1, one_sided_cut=False):
            key = frozenset(graph.nodes)
            ctx.check(key in union, "pair", lambda: "asked to split %r, which is no union of two adjacent districts" % (sorted(key),))
            pr = union[key]
            ctx.check(pr not in failed, "retried", lambda: "pair %r had already failed in this proposal; tried %r" % (sorted(map(repr, pr)), [sorted(map(repr, x)) for x in tried]))
            tried.append(pr)
            if op["nest"] and len(tried) == 1:
                keep = SIM.stream
                SIM.stream = Stream(seed_of("nest", op["seed"]))
                try:
                    recom(cur, "pop", target, .9, method=partial(bipartition_tree, max_attempts=2, allow_pair_reselection=True))
                except (MetagraphError, RuntimeError, PopulationBalanceError):
                    pass
                SIM.stream = keep
                ctx.fault("nested-proposal")
            if op["boom"] and r.random() < .5:
                boomed[0] = True
                raise boom(ctx)
            if pr in bad:
                failed.append(pr)
                ctx.fault("pair-fails")
                raise ReselectException("no split")
            try:
                return bipartition_tree(graph, pop_col=pop_col, pop_target=pop_target, epsilon=epsilon, node_repeats=node_repeats,
                                        one_sided_cut=one_sided_cut, max_attempts=attempts, allow_pair_reselection=True)
            except ReselectException:
                failed.append(pr)
                ctx.fault("pair-exhausted")
                raise

        SIM.stream = Stream(seed_of("d", op["seed"]), op["style"]) if op["cut"] is None else R.CutStream(seed_of("d", op["seed"]), op["style"], op["cut"])
        SIM.set_budget(400000)
        ctx.sig(op["bad"], op["via"])
        before = dict(asg)
        try:
            if op["via"] == "class":
                q = ReCom("pop", target, op["eps"], method)(cur)
            elif op["via"] == "partial":
                q = partial(recom, pop_col="pop", pop_target=target, epsilon=op["eps"], method=method)(cur)
            elif op["via"] == "chain":
                got = []
                for x in MarkovChain(partial(recom, pop_col="pop", pop_target=target, epsilon=op["eps"], method=method), lambda p: True,
                                     lambda p: True, cur, 2):
                    got.append(x)
                ctx.check(len(got) == 2, "steps", "the chain ended early: %d plans" % len(got))
                q = got[-1]
            else:
                q = recom(cur, "pop", target, op["eps"], method=method)
            new = hist.read_asg(ctx, q, w)
            ctx.check(bool(tried) and tried[-1] not in failed, "verdict", lambda: "a plan was returned although the last pair tried failed")
            pr = tried[-1]
            changed = {v for v in w.nodes if new[v] != asg[v]}
            ctx.check({asg[v] for v in changed} | {new[v] for v in changed} <= pr, "outside", lambda: "changed outside the pair %r" % (pr,))
            nl = w.level(new, parts)
            ctx.check(all(w.connected(nl[p]) and R.balanced(w, nl[p], target, op["eps"]) for p in pr), "illegal", lambda: "illegal redraw %r" % (new,))
            ctx.check(hist.read_asg(ctx, cur, w) == before, "changed", "the plan the proposal started from changed")
            cur, asg = q, new
            ctx.count("success")
        except MetagraphError:
            ctx.check(set(failed) == set(pairs), "premature", lambda: "reported that every pair failed; failed %r of %r" % (
                [sorted(map(repr, x)) for x in failed], [sorted(map(repr, x)) for x in pairs]))
            ctx.count("all-failed")
        except ReselectException:
            ctx.fail("leak", "the reselection signal reached the caller; failed %d of %d pairs" % (len(failed), len(pairs)))
        except BOOM:
            ctx.check(boomed[0], "boom", "unexpected")
            boomed[0] = False
            ctx.fault("splitter-raises")
        except PopulationBalanceError:
            if op["eps"] in (.25, .5, .75):                 # (elsewhere: rounding at the very edge of the tolerance)
                raise
        except R.Cutoff:
            ctx.fault("interrupt-at-draw")
        ctx.check(not boomed[0], "swallowed", "the splitter's error was swallowed")
        ctx.check(len(failed) <= len(pairs), "toomany", "more failures than pairs")
        if set(failed) == set(pairs) and hist.read_asg(ctx, cur, w) != before:
            ctx.fail("verdict", "all pairs failed, yet the plan moved")
        ctx.check(hist.read_asg(ctx, cur, w) == asg, "changed", "the plan changed")
        ctx.event(op["bad"], len(failed), len(pairs))
        ctx.step(len(tried))
        ctx.state([w.edges, asg, sorted(sorted(map(repr, x)) for x in failed)])
    ctx.nontrivial = bool(ctx.faults)


def simpler(plan):
    for n in range(4, plan["world"]["n"]):
        yield dict(plan, world=dict(plan["world"], n=n))
    for f, v in (("shape", "path"), ("labels", "int"), ("plabels", "int"), ("pops", "unit"), ("weight", False), ("k", 2)):
        if plan["world"][f] != v:
            yield dict(plan, world=dict(plan["world"], **{f: v}))
    for j, op in enumerate(plan["ops"]):
        for f, v in (("style", "plain"), ("nest", False), ("boom", False), ("cut", None), ("via", "recom"), ("bad", "all")):
            if op[f] != v:
                yield dict(plan, ops=plan["ops"][:j] + [dict(op, **{f: v})] + plan["ops"][j + 1:])
