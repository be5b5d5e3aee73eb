"""C12: every outcome of every flip proposal, from plans with arbitrary histories."""
from fractions import Fraction
from ..seam import RealRandom, SIM, Stream
from .. import world, hist, stats, branch
from .. import recomlib as R
from ..core import seed_of

RUNS = {"quick": 5500, "thorough": 80000}
SHRINK = ["ops"]
RULE = ("one run = one world and a history of moves (districts emptied and refilled, ancestry dropped, statistics read or not, "
        "proposals interrupted at a draw); from plans along it every path of draws of a flip proposal is executed and the set and exact "
        "probabilities of its outcomes are compared with the advertised moves; non-trivial if a proposal was branched out fully on a plan "
        "with a history and a fault")
ASSUMPTIONS = ["proposals that use continuous draws are sampled instead (support only when each move has >= 40 expected hits; chi-square alpha 1e-9)"]
NAMES = ["random", "random", "slow", "slow", "slowbi", "slowbi", "chunk", "chunk", "every", "every", "any"]


def gen(rng, tier, i):
    ops = [[rng.choice(["move"] * 4 + ["outcomes"] * 5 + ["erase", "read", "interrupt", "walk", "walk"]), rng.randrange(1 << 30)] for _ in range(rng.randint(3, 12))]
    ops.append(["outcomes", rng.randrange(1 << 30)])
    return dict(world=world.spec(rng, 3, 9, 2, 4, shapes=world.ISLANDS, one=.03), ops=ops, geo=rng.random() < .3)


def frz(d):
    return tuple(sorted(d.items(), key=repr))


def advertised(name, w, asg, parts):
    """{set of moves: probability or None}; or None if described by a predicate instead."""
    F = w.flips_of(asg)
    if name == "random":
        return {frz({v: p}): None for v, p in F} if F else {(): Fraction(1)}
    if name == "slow":
        return {frz({v: p}): Fraction(1, len(F)) for v, p in F}
    if name == "slowbi":
        B = {v for v, _ in F}
        return {frz({v: p}): Fraction(1, len(B)) / len({q for u, q in F if u == v}) for v, p in F}
    if name == "chunk":
        return {frz({u: asg[v] for u in w.adj[v] if asg[u] != asg[v]}): None for v in {v for v, _ in F}}
    if name == "any":
        d = {}
        for v in w.nodes:
            for p in parts:
                k = () if asg[v] == p else frz({v: p})
                d[k] = d.get(k, 0) + Fraction(1, len(w.nodes) * len(parts))
        return {k: None for k in d}
    return None


def every_ok(w, asg, mv):
    """A legal simultaneous move: each flip runs along a cut edge and can be charged to its own district."""
    F = w.flips_of(asg)
    if not all(f in F for f in mv):
        return "a node moved to a district it does not touch"
    slots = [[asg[v], p] for v, p in mv]

    def match(i, used):
        return i == len(slots) or any(x not in used and match(i + 1, used | {x}) for x in set(slots[i]))
    return None if match(0, frozenset()) else "more moves than districts to charge them to"


def every_must(w, asg, limit=3000):
    """The simultaneous moves that certainly can be drawn: one flip along a cut edge for each district that has a boundary, of
    distinct nodes (or the same flip twice).  None if there are too many to list."""
    F = w.flips_of(asg)
    by = {p: sorted({f for f in F if p in (asg[f[0]], f[1])}, key=repr) for p in set(asg.values())}
    out = {()}
    for p, fs in by.items():
        if not fs:
            continue
        if len(out) * len(fs) > limit:
            return None
        new = set()
        for m in out:
            d = dict(m)
            for v, q in fs:
                if d.get(v, q) == q:
                    new.add(frz({**d, v: q}))
        out = new
    return out


def execute(plan, ctx):
    from gerrychain import Partition
    w = world.World(plan["world"])
    parts = w.parts
    props = hist.lib_proposals()
    ups = stats.make(w, ["cut_edges", "cut_edges_by_part", "pop"])
    slots = [hist.Slot(Partition(w.graph(), dict(w.start), ups, use_default_updaters=False), dict(w.start))]
    ctx.sig(w.edges, w.start)
    full = 0
    for op, seed in plan["ops"]:
        r = RealRandom(seed)
        SIM.stream = Stream(seed_of("d", seed))
        SIM.set_budget(3000000)
        s = r.choice(slots[-3:])
        F = w.flips_of(s.asg)
        ctx.sig(op)
        if op == "move":
            f = hist.flips_for(r.choice(hist.MOVES), w, s.asg, parts, r, s.prev)
            slots.append(hist.Slot(s.plan.flip(f), hist.apply(s.asg, f), s.asg))
        elif op == "walk":
            for _ in range(r.randint(1, 5)):
                name = r.choice(NAMES)
                if not F and name not in ("random", "any", "every"):
                    continue
                q = props[name](s.plan)
                s = hist.Slot(q, hist.read_asg(ctx, q, w), s.asg)
                F = w.flips_of(s.asg)
                slots.append(s)
                ctx.step()
        elif op == "erase":
            s.plan.parent = None
            ctx.fault("ancestry-erased")
        elif op == "read":
            s.plan["cut_edges"], s.plan["cut_edges_by_part"]
        elif op == "interrupt" and F:
            SIM.stream = R.CutStream(seed, "plain", r.randint(1, 3))
            try:
                props[r.choice(NAMES)](s.plan)
            except R.Cutoff:
                ctx.fault("interrupt-at-draw")
        elif op == "outcomes":
            name = r.choice(NAMES)
            if not F and name not in ("random", "any", "every"):
                continue
            f, plan0, asg = props[name], s.plan, s.asg

            def once():
                q = f(plan0)
                new = hist.read_asg(ctx, q, w)
                if not F and name == "random":
                    ctx.check(q is plan0 or new == asg, "noboundary", "a plan without boundary was changed")
                mv = {v: new[v] for v in w.nodes if new[v] != asg[v]}
                ctx.check(set(q.parts.keys()) == set(parts), "names", "district names changed")
                return frz(mv)
            want = advertised(name, w, asg, parts)
            try:
                dist, paths = branch.enumerate_outcomes(once, 1500)
                ctx.step(paths)
                ctx.count("paths", paths)
                full += 1
                exact = True
            except (branch.TooMany, branch.Unbranchable) as e:
                exact = False
                N = 400 if isinstance(e, branch.TooMany) else 3000
                dist = {}
                for _ in range(N):
                    o = once()
                    dist[o] = dist.get(o, 0) + 1
                ctx.count("sampled:" + name)
            ctx.event(name, sorted(dist))
            if name == "every":
                for mv in dist:
                    bad = every_ok(w, asg, mv)
                    ctx.check(bad is None, "every:illegal", lambda: "%s: %r from %r" % (bad, mv, asg))
                if exact:
                    reach = {x for mv in dist for x in mv}
                    ctx.check(reach == F, "every:support", lambda: "moves never drawn %r from %r" % (sorted(F - reach, key=repr), asg))
                    must = every_must(w, asg)
                    if must is not None:
                        ctx.check(must <= set(dist), "every:support", lambda: "simultaneous moves never drawn %r from %r" % (sorted(must - set(dist))[:3], asg))
                        ctx.count("every:exact-support")
                continue
            bad = [mv for mv in dist if mv not in want]
            ctx.check(not bad, name + ":illegal", lambda: "%s drew the move %r from %r; advertised %r" % (name, bad[0], asg, sorted(want)))
            missing = [mv for mv in want if mv not in dist]
            if exact:
                ctx.check(not missing, name + ":support", lambda: "%s can never draw %r from %r" % (name, missing[0], asg))
                for mv, p in want.items():
                    if p is not None:
                        ctx.check(dist[mv] == p, name + ":rate", lambda: "%s draws %r with probability %s, advertised %s, from %r" % (name, mv, dist[mv], p, asg))
            elif N == 3000:
                if len(want) * 80 <= N:
                    ctx.check(not missing, name + ":support", lambda: "%s never drew %r in %d draws from %r" % (name, missing[0], N, asg))
                if all(p is not None for p in want.values()) and len(want) > 1:
                    pv = branch.uniform_test(dist, want, N)
                    ctx.check(pv > 1e-9, name + ":rate", lambda: "%s: frequencies %r do not fit %r (p <= %g)" % (name, dist, want, pv))
            ctx.check(hist.read_asg(ctx, plan0, w) == asg, "changed", "the plan itself changed")
        ctx.state([w.edges, slots[-1].asg])
    ctx.nontrivial = full > 0 and len(slots) > 1 and bool(ctx.faults)


def simpler(plan):
    for n in range(3, plan["world"]["n"]):
        yield dict(plan, world=dict(plan["world"], n=n))
    for f, v in (("shape", "path"), ("labels", "int"), ("plabels", "int"), ("pops", "unit"), ("weight", False), ("k", 2)):
        if plan["world"][f] != v:
            yield dict(plan, world=dict(plan["world"], **{f: v}))
