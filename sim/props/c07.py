"""C07: contiguity verdicts are exact along any run."""
from ..seam import RealRandom, SIM, Stream
from .. import world, hist
from ..core import seed_of
from ..ref import components

RUNS = {"quick": 6000, "thorough": 80000}
SHRINK = ["ops"]
RULE = ("one run = two worlds on which plans evolve through random moves (single boundary flips, multi-node, emptying, chains "
        "under a contiguity constraint) with ancestry dropped at random points; every constraint is asked about every plan, "
        "repeatedly, in random order and under differing random draws, and compared with a reachability reference; non-trivial "
        "if both verdicts and a dropped ancestry occurred")
ASSUMPTIONS = ["contiguous/contiguous_bfs are judged where the plan's live parent is contiguous (their documented premise) or gone",
               "single_flip_contiguous is judged on one-node moves into a neighbouring district from a contiguous parent"]


def gen(rng, tier, i):
    ops = [[rng.choice(["move"] * 6 + ["chain"] * 2 + ["erase"] * 2 + ["ask"] * 3), rng.randrange(1 << 30)]
           for _ in range(rng.randint(4, 18) if rng.random() > .01 else 150)]
    far = dict(shapes=["hub", "hub", "cycle", "planar"], wide=1) if rng.random() < .02 else dict(shapes=world.ISLANDS, wide=.02, one=.02)
    if i % 1500 == 700:
        return dict(worlds=[world.vast(rng), world.spec(rng, 3, 14, 2, 4)], ops=ops[:8], cpu=240, nmd=rng.random() < .5, style="plain")
    return dict(worlds=[world.spec(rng, 3, 14, 2, rng.choice([3, 4]), **far), world.spec(rng, 3, 14, 2, 4, shapes=world.ISLANDS, wide=.02, one=.02)], ops=ops, nmd=rng.random() < .5,
                style=rng.choice(["plain", "plain", "extreme", "low"]))


def execute(plan, ctx):
    from gerrychain import Partition, MarkovChain
    from gerrychain.updaters import cut_edges
    from gerrychain.proposals import propose_random_flip
    from gerrychain.proposals.proposals import slow_reversible_propose
    from gerrychain.constraints import (contiguous, contiguous_bfs, single_flip_contiguous, no_more_discontiguous,
                                        SelfConfiguringLowerBound)
    from gerrychain.constraints.contiguity import number_of_contiguous_parts, contiguous_components
    W = [world.World(s) for s in plan["worlds"]]
    slots = []                                           # (world, slot, contiguous?, single-flip?)
    for w in W:
        p = Partition(w.graph(), dict(w.start), {"cut_edges": cut_edges}, use_default_updaters=False)
        slots.append([w, hist.Slot(p, dict(w.start)), True])
    ctx.sig([w.edges for w in W])
    nmd = {}
    verdicts = set()
    if not plan["nmd"]:                                  # the library's own object may serve only one of the worlds
        nmd = {id(w): SelfConfiguringLowerBound(number_of_contiguous_parts) for w in W}
    else:
        nmd = {id(W[0]): no_more_discontiguous, id(W[1]): SelfConfiguringLowerBound(number_of_contiguous_parts)}
    first = {}

    def verdict(c, p):
        x = c(p)
        ctx.check(x is True or x is False or type(x).__name__ in ("bool_", "bool"), "verdict-type", "%r" % (x,))
        return bool(x)

    def ncont(w, a):
        return sum(1 for s in w.level(a).values() if w.connected(s))

    def ask(w, s, r):
        p, a = s.plan, s.asg
        truth = w.contiguous(a)
        par = p.parent
        pasg = hist.read_asg(ctx, par, w) if par is not None else None
        cons = []
        if pasg is None or w.contiguous(pasg):
            cons += [("contiguous", contiguous, truth), ("contiguous_bfs", contiguous_bfs, truth)]
            if pasg is None:
                cons.append(("single_flip_contiguous", single_flip_contiguous, truth))
            else:
                named = [v for v in p.flips]
                if len(named) == 1 and (named[0], a[named[0]]) in w.flips_of(pasg):
                    cons.append(("single_flip_contiguous", single_flip_contiguous, truth))
        if id(w) not in first:
            first[id(w)] = ncont(w, a)
        cons.append(("no_more_discontiguous", nmd[id(w)], ncont(w, a) >= first[id(w)]))
        r.shuffle(cons)
        for name, c, want in cons:
            SIM.stream = Stream(r.random(), plan["style"])
            got = verdict(c, p)
            ctx.event(name, got)
            ctx.count("asked:" + name)
            verdicts.add(got)
            ctx.check(got == want, "verdict:" + name, lambda: "%s says %r, districts %r are %sconnected (parent %s, flips %r)" % (
                name, got, w.level(a), "" if truth else "not all ", "gone" if par is None else "alive", p.flips))
        if r.random() < .3:
            got = number_of_contiguous_parts(p)
            ctx.check(got == ncont(w, a), "count", lambda: "number_of_contiguous_parts %r, expected %d" % (got, ncont(w, a)))
            cc = contiguous_components(p)
            for q, nodes in w.level(a).items():
                pieces = [frozenset(g.nodes) for g in cc[q]]
                ctx.check(sorted(map(len, pieces)) and len(pieces) == components(w, nodes) or not nodes and not pieces, "components",
                          lambda: "components of %r: %r" % (q, pieces))
                ctx.check(set().union(*pieces) == set(nodes) and all(w.connected(x) for x in pieces), "components", "%r" % (pieces,))

    for op, seed in plan["ops"]:
        r = RealRandom(seed)
        SIM.stream = Stream(seed_of("op", seed), plan["style"])
        SIM.set_budget(300000)
        w, s, _ = r.choice(slots[-4:] + slots[:2])
        ctx.sig(op)
        if op == "move":
            kind = r.choice(["single"] * 4 + ["multi", "vanish", "cascade", "noop", "refill", "revert", "swap"])
            f = hist.flips_for(kind, w, s.asg, w.parts, r, s.prev)
            q = hist.Slot(s.plan.flip(f), hist.apply(s.asg, f), s.asg)
            ctx.step()
            slots.append([w, q, w.contiguous(q.asg)])
            ctx.state([w.edges, q.asg])
            if r.random() < .7:
                ask(w, q, r)
        elif op == "erase":
            s.plan.parent = None
            ctx.fault("ancestry-erased")
            ask(w, s, r)
        elif op == "ask":
            for _ in range(r.randint(1, 3)):
                ask(w, s, r)
        elif op == "chain" and w.contiguous(s.asg):
            name, c = r.choice([("contiguous", contiguous), ("contiguous_bfs", contiguous_bfs),
                                ("single_flip_contiguous", single_flip_contiguous)])
            if s.plan.parent is not None and name == "single_flip_contiguous" and \
                    not (len(s.plan.flips) == 1 and w.contiguous(hist.read_asg(ctx, s.plan.parent, w)) and
                         (list(s.plan.flips)[0], s.asg[list(s.plan.flips)[0]]) in w.flips_of(hist.read_asg(ctx, s.plan.parent, w))):
                s.plan.parent = None
                ctx.fault("ancestry-erased")
            if s.plan.parent is not None and not w.contiguous(hist.read_asg(ctx, s.plan.parent, w)):
                s.plan.parent = None
                ctx.fault("ancestry-erased")
            n = [0]
            own = name != "single_flip_contiguous" and r.random() < .5

            class Stop(Exception):
                pass

            def proposal(p):
                n[0] += 1
                if n[0] > 60:
                    raise Stop()
                a = hist.read_asg(ctx, p, w)
                if own:
                    return p.flip(hist.flips_for(r.choice(["single", "cascade", "multi", "vanish", "noop"]), w, a, w.parts, r))
                return r.choice([propose_random_flip, slow_reversible_propose if w.cut(a) else propose_random_flip])(p)

            def con(p):
                got = verdict(c, p)
                a = hist.read_asg(ctx, p, w)
                want = w.contiguous(a)
                verdicts.add(got)
                ctx.check(got == want, "verdict:" + name, lambda: "in a chain %s says %r for %r (flips %r)" % (
                    name, got, w.level(a), p.flips))
                return got
            last = None
            try:
                for p in MarkovChain(proposal, con, lambda p: r.random() < .8, s.plan, r.randint(2, 10)):
                    ctx.step()
                    a = hist.read_asg(ctx, p, w)
                    ctx.check(w.contiguous(a), "emitted", lambda: "the chain emitted a plan with disconnected districts %r" % (w.level(a),))
                    last = (p, a)
            except Stop:
                ctx.count("no-legal-move")
            if last and last[0] is not s.plan:
                slots.append([w, hist.Slot(last[0], last[1], None), True])
    ctx.nontrivial = len(verdicts) == 2 and "ancestry-erased" in ctx.faults


def simpler(plan):
    for j in (0, 1):
        sp = plan["worlds"][j]
        for n in range(3, sp["n"]):
            ws = list(plan["worlds"])
            ws[j] = dict(sp, n=n)
            yield dict(plan, worlds=ws)
        for f, v in (("shape", "path"), ("labels", "int"), ("plabels", "int"), ("k", 2)):
            if sp[f] != v:
                ws = list(plan["worlds"])
                ws[j] = dict(sp, **{f: v})
                yield dict(plan, worlds=ws)
