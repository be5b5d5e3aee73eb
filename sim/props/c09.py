"""C09: recombination moves, with every splitting configuration, draw style, and faults inside the move."""
from ..seam import RealRandom, SIM, Stream
from .. import world, hist, stats
from .. import recomlib as R
from ..core import seed_of

RUNS = {"quick": 3600, "thorough": 80000}
SHRINK = ["ops"]
RULE = ("one run = one world, a contiguous plan and a sequence of recombination moves (recom, ReCom, inside chains; spectral), each "
        "with its own splitting configuration, tolerance, draw style (plain, extreme, tied, constant, low) and possibly a fault: a "
        "splitter that fails, lies or raises, an interrupt at the n-th draw; non-trivial if some move changed the plan and some fault hit")
ASSUMPTIONS = ["moves start from plans whose districts are connected", "population comparisons at the tolerance edge use 1e-9 relative slack"]
STYLES = ["plain", "plain", "plain", "extreme", "ties", "const", "low"]


def gen(rng, tier, i):
    ops = [dict(kind=rng.choice(["recom"] * 6 + ["class", "chain", "chain", "spectral", "liar", "raiser", "interrupt", "interrupt"]),
                seed=rng.randrange(1 << 30), eps=rng.choice([.01, .1, .125, .25, .25, .5, .5, .75]), style=rng.choice(STYLES), cfg=R.config(rng),
                repeats=rng.choice([1, 1, 2, 5]), tgt=rng.choice(["ideal", "ideal", "ideal", "pair", "pair"])) for _ in range(rng.randint(1, 7))]
    if i % 1500 == 700:
        for op in ops:
            op.update(eps=rng.choice([.25, .5, .75]), tgt="ideal", repeats=1)
            op["cfg"].update(st=rng.choice(["random", "own"]), attempts=40)
        return dict(world=dict(world.vast(rng), k=2), ops=ops[:3], cpu=240)
    return dict(world=world.spec(rng, 4, rng.choice([8, 12, 20]), 2, 5, wide=.02), ops=ops)


class Boom(Exception):
    pass


def execute(plan, ctx):
    from functools import partial
    from gerrychain import Partition, MarkovChain, GeographicPartition
    from gerrychain.proposals import recom, ReCom, spectral_recom
    from gerrychain.proposals.tree_proposals import MetagraphError
    from gerrychain.tree import BalanceError, PopulationBalanceError, ReselectException, bipartition_tree
    w = world.World(plan["world"])
    parts = w.parts
    if len(parts) < 2:
        return
    cur = Partition(w.graph(), dict(w.start), stats.make(w, ["cut_edges", "pop", "cut_edges_by_part"]), use_default_updaters=False)
    asg = dict(w.start)
    ctx.sig(w.edges)
    moved = 0

    def good(old, q, target, eps, spectral=False):
        new = hist.read_asg(ctx, q, w)
        changed = {v for v in w.nodes if old[v] != new[v]}
        touched = {old[v] for v in changed} | {new[v] for v in changed}
        ctx.check(touched <= set(parts), "names", lambda: "new district names %r" % (touched,))
        adj = w.adjacent_pairs(old)
        pairs = [pr for pr in adj if touched <= pr]
        ctx.check(bool(pairs), "pair", lambda: "districts %r changed: not two that were adjacent\n%r\n%r" % (touched, old, new))
        if spectral:
            return new
        lv = w.level(new, parts)
        # the flipped pair is the one whose members satisfy the requirement; a no-change redraw must be legal for some adjacent pair

        def okpair(pr):
            return all(w.connected(lv[p]) and R.balanced(w, lv[p], target, eps) for p in pr)
        ctx.check(any(okpair(pr) for pr in pairs), "illegal", lambda: "redrawn districts %r: connected %r, populations %r, target %r +- %r\n%r" % (
            [sorted(x) for x in pairs], [[w.connected(lv[p]) for p in pr] for pr in pairs],
            [[sum(w.attr[v]["pop"] for v in lv[p]) for p in pr] for pr in pairs], target, eps, new))
        ctx.check(w.contiguous(new, parts), "disconnected", lambda: "a district is not connected: %r" % (new,))
        return new

    for op in plan["ops"]:
        r = RealRandom(op["seed"])
        SIM.stream = Stream(seed_of("d", op["seed"]), op["style"])
        SIM.set_budget(400000)
        kind, eps, cfg = op["kind"], op["eps"], op["cfg"]
        target = w.total() / len(parts)
        if op["tgt"] == "pair":                       # aim at a pair that can be halved: more successful moves
            pr = r.choice(sorted(w.adjacent_pairs(asg), key=lambda s: sorted(map(repr, s))))
            target = sum(w.attr[v]["pop"] for v in w.nodes if asg[v] in pr) / 2
        if target <= 0:
            continue
        ctx.sig(kind, op["style"], eps, cfg)
        method = R.build(cfg)
        before = dict(asg)
        try:
            if kind == "recom" or kind == "interrupt":
                kw = dict(region_surcharge=cfg["surcharge"]) if cfg["method"] == "tree" and cfg["surcharge"] is not None else {}
                if kind == "interrupt":
                    SIM.stream = R.CutStream(seed_of("d", op["seed"]), op["style"], r.randint(1, 40))
                q = recom(cur, "pop", target, eps, node_repeats=op["repeats"], method=method, **kw)
                asg, cur = good(asg, q, target, eps), q
            elif kind == "class":
                q = ReCom("pop", target, eps, method)(cur)
                asg, cur = good(asg, q, target, eps), q
            elif kind == "spectral":
                q = spectral_recom(cur, weight_type=r.choice([None, "random"]), lap_type=r.choice(["normalized", "plain"]))
                new = good(asg, q, target, eps, spectral=True)
                ctx.count("spectral")
                if w.contiguous(new, parts):
                    asg, cur = new, q
            elif kind == "chain":
                prop = partial(recom, pop_col="pop", pop_target=target, epsilon=eps, node_repeats=op["repeats"], method=method)
                prev = asg
                first = True
                for q in MarkovChain(prop, lambda p: True, lambda p: r.random() < .8, cur, 5):
                    ctx.step()
                    if not first:
                        new = hist.read_asg(ctx, q, w)
                        if new != prev:
                            good(prev, q, target, eps)
                            moved += 1
                        prev = new
                    first = False
                    asg, cur, before = prev, q, dict(prev)
            elif kind == "liar":
                # a user's splitter that returns unbalanced, whole or foreign sets: an error, or a legal plan
                lie = r.choice(["whole", "none", "one", "half"])

                def method(graph, pop_col, pop_target, epsilon, node_repeats, one_sided_cut=False):
                    ns = sorted(graph.nodes, key=repr)
                    return {"whole": set(ns), "none": None, "one": {ns[0]}, "half": set(ns[:len(ns) // 2])}[lie]
                ctx.fault("splitter-lies:" + lie)
                q = recom(cur, "pop", target, eps, method=method)
                new = hist.read_asg(ctx, q, w)
                ctx.check(lie != "none", "none", "no split was found, yet a plan was returned")
                changed = {v for v in w.nodes if asg[v] != new[v]}
                touched = {asg[v] for v in changed} | {new[v] for v in changed}
                lv = w.level(new, parts)
                ctx.check(any(touched <= pr and all(R.balanced(w, lv[p], target, eps) for p in pr) for pr in w.adjacent_pairs(asg)),
                          "liar", lambda: "an unbalanced split was not refused: %r" % (new,))
            elif kind == "raiser":
                def method(graph, pop_col, pop_target, epsilon, node_repeats, one_sided_cut=False):
                    raise Boom()
                ctx.fault("splitter-raises")
                try:
                    recom(cur, "pop", target, eps, method=method)
                    ctx.fail("swallowed", "the splitter's error was swallowed")
                except Boom:
                    pass
            if kind not in ("liar", "raiser"):
                if asg != before:
                    moved += 1
                ctx.event(kind, sorted(asg.items(), key=repr))
            ctx.step()
        except R.Cutoff:
            ctx.fault("interrupt-at-draw")
        except (RuntimeError, MetagraphError, BalanceError, PopulationBalanceError, ReselectException) as e:
            if isinstance(e, ReselectException):
                ctx.fail("reselect", "the internal reselection signal reached the caller")
            ctx.count("no-split:" + type(e).__name__)
            if cfg["attempts"] < 40:
                ctx.fault("attempts-exhausted")
        ctx.check(hist.read_asg(ctx, cur, w) == asg, "changed", "the plan the move started from changed")
        ctx.state([w.edges, asg])
    hist.check_views(ctx, cur, w, asg, parts)
    ctx.count("moves", moved)
    ctx.nontrivial = moved > 0 and bool(ctx.faults)


def simpler(plan):
    for n in range(4, plan["world"]["n"]):
        yield dict(plan, world=dict(plan["world"], n=n))
    for f, v in (("shape", "path"), ("labels", "int"), ("plabels", "int"), ("pops", "unit"), ("weight", False), ("k", 2)):
        if plan["world"][f] != v:
            yield dict(plan, world=dict(plan["world"], **{f: v}))
    for j, op in enumerate(plan["ops"]):
        for f, v in (("style", "plain"), ("repeats", 1), ("tgt", "ideal")):
            if op[f] != v:
                yield dict(plan, ops=plan["ops"][:j] + [dict(op, **{f: v})] + plan["ops"][j + 1:])
        for f, v in (("method", "default"), ("st", "random"), ("bal", "memo"), ("repeats", 1), ("choice", "lib"), ("surcharge", None)):
            if op["cfg"][f] != v:
                yield dict(plan, ops=plan["ops"][:j] + [dict(op, cfg=dict(op["cfg"], **{f: v}))] + plan["ops"][j + 1:])
