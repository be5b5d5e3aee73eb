"""C02: incrementally kept statistics equal recomputation from scratch, for every history and read schedule."""
from ..seam import RealRandom, SIM, Stream
from .. import world, hist, stats
from ..core import seed_of

RUNS = {"quick": 2000, "thorough": 60000}
SHRINK = ["ops", "stats"]
RULE = ("one run = one random world (graph shape, labels, data with missing values), one random subset of statistics and "
        "one random schedule of moves, branch points, chain segments, reads, parent erasures and plan deletions; "
        "non-trivial if at least one statistic was read on the incremental path and one after an erasure or deletion")
ASSUMPTIONS = ["attribute values are exactly representable (integers and dyadic fractions)",
               "moves name existing districts", "spanning-tree counts and symmetric entropy only where every district has nodes/population"]

DEPS = {"cut_edges_by_part": ["cut_edges"], "exterior_boundaries": ["boundary_nodes"],
        "exterior_boundaries_as_a_set": ["boundary_nodes"], "interior_boundaries": ["cut_edges", "cut_edges_by_part"],
        "perimeter": ["cut_edges", "cut_edges_by_part", "boundary_nodes", "exterior_boundaries", "interior_boundaries"],
        "polsby_popper": ["perimeter", "area", "cut_edges", "cut_edges_by_part", "boundary_nodes", "exterior_boundaries",
                          "interior_boundaries"],
        "regs": ["cut_edges"], "locsp": ["cut_edges"], "locsp2": ["cut_edges"], "flows_e": ["cut_edges"]}


def gen(rng, tier, i):
    sp = world.spec(rng, 3, 14 if tier == "quick" else 24, 2, 4, shapes=world.ISLANDS, wide=.02, one=.02)
    names = rng.sample(stats.NAMES, rng.randint(3, len(stats.NAMES))) if i % 3 else list(stats.NAMES)
    ops = []
    for _ in range(rng.randint(6, 30) if rng.random() > .01 else 150):
        k = rng.choice(["move"] * 6 + ["read"] * 4 + ["erase", "erase", "forget", "chain", "chain", "reroot", "readall"])
        ops.append([k, rng.randrange(1 << 30)])
    if rng.random() < .025:                              # a long stretch of moves nobody looks at
        ops.insert(rng.randrange(len(ops)), ["long", rng.randrange(1 << 30)])
    return dict(world=sp, stats=names, ops=ops, cls=rng.choice(["plain", "plain", "plain", "plain", "geo", "geo", "grid"]), eager=rng.random() < .3)


def execute(plan, ctx):
    from gerrychain import Partition, GeographicPartition, MarkovChain
    grid = plan["cls"] == "grid"
    w = world.GridWorld(plan["world"], plan["eager"]) if grid else world.World(plan["world"])
    parts = w.parts
    names = list(plan["stats"]) or ["cut_edges"]
    if grid:
        extra = [n for n in names if n in ("flows_n", "flows_e", "trees", "exterior_boundaries_as_a_set")]
        names = stats.GRID + extra
    need = list(names)
    for n in names:
        need += [d for d in DEPS.get(n, []) if d not in need]
    ups = stats.make(w, extra if grid else need)
    use_default = plan["cls"] in ("geo", "grid")

    def fresh(graph, asg):
        if grid:
            from gerrychain.grid import Grid
            return Grid((w.m, w.n2), w.diagonals, asg, ups)
        return (GeographicPartition if use_default else Partition)(graph, asg, ups, use_default_updaters=use_default)
    root = fresh(None if grid else w.graph(), dict(w.start))
    slots = [hist.Slot(root, dict(w.start))]
    ctx.sig(w.nodes, w.edges, sorted(names))
    flags = set()

    def check_read(s, name):
        stats.read(ctx, w, s, name, parts, flags)

    for op, seed in plan["ops"]:
        r = RealRandom(seed)
        SIM.stream = Stream(seed_of("op", seed))
        SIM.set_budget(200000)
        s = r.choice(slots[-4:] + slots[:1])
        ctx.sig(op)
        if op == "move":
            kind = r.choice(hist.MOVES)
            f = hist.flips_for(kind, w, s.asg, parts, r, s.prev)
            new = s.plan.flip(f)
            slots.append(hist.Slot(new, hist.apply(s.asg, f), s.asg))
            ctx.step()
            ctx.count("move:" + kind)
            ctx.state([w.edges, slots[-1].asg])
            if plan["eager"]:
                for n in names:
                    check_read(slots[-1], n)
        elif op == "long":
            p, a, b = s.plan, s.asg, s.prev
            kinds = r.choice([hist.MOVES, ["single"], ["single", "vanish", "noop"]])
            for _ in range(r.randint(300, 900)):
                f = hist.flips_for(r.choice(kinds), w, a, parts, r, b)
                p, a, b = p.flip(f), hist.apply(a, f), a
                ctx.step()
            slots.append(hist.Slot(p, a, b))
            ctx.count("unread-stretch")
        elif op == "read":
            for n in r.sample(names, r.randint(1, min(4, len(names)))):
                check_read(s, n)
        elif op == "readall":
            o = list(names)
            r.shuffle(o)
            for n in o:
                check_read(s, n)
        elif op == "erase":
            s.plan.parent = None
            ctx.fault("ancestry-erased")
        elif op == "forget":
            if len(slots) > 1:
                slots.pop(r.randrange(1, len(slots)))
                ctx.fault("plan-dropped")
        elif op == "reroot":
            new = fresh(s.plan.graph, dict(s.asg))
            if set(s.asg.values()) == set(parts):
                slots.append(hist.Slot(new, dict(s.asg)))
        elif op == "chain":
            seen = []
            L = hist.lib_proposals()
            if "cut_edges" not in need and not use_default:
                L = {"any": L["any"]}
            if "cut_edges_by_part" not in need and not use_default:
                L.pop("every", None)
            pname = r.choice(sorted(L) + ["own", "own"])
            rej = r.choice([0, 0, .3])

            def proposal(p):
                a = hist.read_asg(ctx, p, w)
                if pname == "own" or not w.cut(a):
                    return p.flip(hist.flips_for(r.choice(hist.MOVES), w, a, parts, r))
                return L[pname](p)

            def valid(p):
                if p is not s.plan and r.random() < rej:
                    return False
                return True

            def accept(p):
                if r.random() < .2:
                    for n in r.sample(names, 1):
                        if stats.usable(n, w, hist.read_asg(ctx, p, w), parts) and stats.usable(n, w, hist.read_asg(ctx, p.parent, w), parts) and p.parent.parent is None:
                            p[n]
                return r.random() < .8
            prev = None
            for p in MarkovChain(proposal, valid, accept, s.plan, r.randint(2, 8)):
                a = hist.read_asg(ctx, p, w)
                sl = s if p is s.plan else hist.Slot(p, a, hist.read_asg(ctx, p.parent, w) if p.parent is not None else
                                                     (prev.prev if prev is not None and prev.plan is p else prev.asg if prev else None))
                if prev is not None and p is prev.plan:
                    sl = prev
                ctx.step()
                ctx.state([w.edges, a])
                for n in r.sample(names, r.randint(0, min(3, len(names)))):
                    check_read(sl, n)
                if sl is not s and sl is not prev and r.random() < .4:
                    slots.append(sl)
                prev = sl
            ctx.count("chain:" + pname)
    for s in slots:
        o = list(names)
        ctx.rng.shuffle(o)
        for n in o:
            check_read(s, n)
    ctx.nontrivial = {"incremental", "scratch"} <= flags or ctx.nontrivial and "incremental" in flags


def simpler(plan):
    for n in range(3, plan["world"]["n"]):
        yield dict(plan, world=dict(plan["world"], n=n))
    for k in range(2, plan["world"]["k"]):
        yield dict(plan, world=dict(plan["world"], k=k))
    for f, v in (("shape", "path"), ("labels", "int"), ("plabels", "int"), ("pops", "unit"), ("weight", False)):
        if plan["world"][f] != v:
            yield dict(plan, world=dict(plan["world"], **{f: v}))
    if plan["cls"] != "plain":
        yield dict(plan, cls="plain")
    if plan["eager"]:
        yield dict(plan, eager=False)
