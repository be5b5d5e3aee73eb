"""C06: every view of every reachable plan agrees; a move changes exactly what it names."""
from ..seam import RealRandom, SIM, Stream
from .. import world, hist
from ..core import seed_of

RUNS = {"quick": 4000, "thorough": 80000}
SHRINK = ["ops"]
RULE = ("one run = one world, one way of giving the starting assignment (dict, reordered dict, series, node attribute, Assignment, "
        "other plan's export) and graph (Graph, networkx, frozen), one plan class, and a random history of moves (incl. failing "
        "ones), chain segments and reroots from exported forms; non-trivial if at least 3 moves and one failing move, reroot or "
        "emptied district")
ASSUMPTIONS = ["moves name existing districts (a move to an unknown district or node must fail and leave its source intact)"]


def gen(rng, tier, i):
    ops = [[rng.choice(["move"] * 8 + ["bad", "bad", "chain", "reroot", "erase", "forget", "look"]), rng.randrange(1 << 30)]
           for _ in range(rng.randint(4, 24) if rng.random() > .01 else 200)]
    return dict(world=world.spec(rng, 2, 14, 2, 5, shapes=world.ISLANDS, wide=.04, one=.03), form=rng.choice(["dict", "shuffled", "series", "attr", "assignment"]),
                gform=rng.choice(["graph", "nx", "frozen"]), cls=rng.choice(["plain", "plain", "geo", "grid"]), ops=ops,
                refuse=rng.random() < .1, cut=rng.random() < .7)


def execute(plan, ctx):
    import pandas, networkx
    from gerrychain import Partition, GeographicPartition, MarkovChain, Graph
    from gerrychain.grid import Grid
    from gerrychain.graph.graph import FrozenGraph
    from gerrychain.partition.assignment import Assignment
    from gerrychain.updaters import cut_edges
    sp = plan["world"]
    if plan["cls"] == "grid":
        sp = dict(sp, shape="grid", labels="tuple")
    w = world.World(sp)
    r0 = RealRandom(plan["seed"])
    asg = dict(w.start)
    if plan["cls"] == "grid":
        m, n = max(2, min(5, sp["n"] // 2)), r0.randint(2, 4)
        g = Grid((m, n), with_diagonals=r0.random() < .5)
        w.nodes = sorted(g.graph.nodes)
        w.edges = [tuple(e) for e in g.graph.edges]
        w.adj = {v: [] for v in w.nodes}
        for a, b in w.edges:
            w.adj[a].append(b)
            w.adj[b].append(a)
        ctx.check(set(w.nodes) == {(i, j) for i in range(m) for j in range(n)}, "grid", "grid nodes %r" % (w.nodes,))
        asg = world.region_growth(w, w.parts[:min(len(w.parts), len(w.nodes))], r0)
        w.parts = sorted(set(asg.values()))
    parts = list(w.parts)
    given = {"dict": dict(asg), "shuffled": dict(r0.sample(list(asg.items()), len(asg))),
             "series": pandas.Series(list(asg.values()), index=pandas.Index(list(asg), tupleize_cols=False)),
             "attr": "ASG", "assignment": Assignment.from_dict(dict(asg))}[plan["form"]]
    ups = {"cut_edges": cut_edges} if plan["cut"] else {}
    if plan["cls"] == "grid":
        if plan["form"] in ("attr", "series"):          # Grid documents a dictionary
            given = dict(asg)
        p0 = Grid((m, n), assignment=given, with_diagonals=len(w.edges) > 2 * m * n - m - n)
        if r0.random() < .2:
            w.parts = parts = sorted(set(Grid((m, n)).parts))
            p0 = Grid((m, n), with_diagonals=len(w.edges) > 2 * m * n - m - n)
            asg = hist.read_asg(ctx, p0, w)
    else:
        nxg = w.nx()
        for v in nxg:
            nxg.nodes[v]["ASG"] = asg[v]
        graph = {"graph": lambda: Graph.from_networkx(nxg), "nx": lambda: nxg,
                 "frozen": lambda: FrozenGraph(Graph.from_networkx(nxg))}[plan["gform"]]()
        cls = GeographicPartition if plan["cls"] == "geo" else Partition
        if plan["refuse"]:
            for bad in ({v: p for v, p in list(asg.items())[1:]}, {**asg, "no such node": parts[0]}):
                try:
                    cls(Graph.from_networkx(nxg), bad, ups, use_default_updaters=False)
                    ctx.fail("bad-start", "an assignment with missing or unknown nodes was taken")
                except KeyError:
                    ctx.fault("bad-start")
        p0 = cls(graph, given, ups, use_default_updaters=plan["cls"] == "geo")
    has_cut = plan["cut"] or plan["cls"] != "plain"
    ctx.sig(plan["form"], plan["gform"], plan["cls"], w.edges, parts)
    hist.check_views(ctx, p0, w, asg, parts)
    slots = [hist.Slot(p0, asg)]
    moves = 0

    def add(pl, a, prev, deep):
        hist.check_views(ctx, pl, w, a, parts, deep)
        slots.append(hist.Slot(pl, a, prev))
        ctx.state([w.edges, a])
        if set(a.values()) != set(parts):
            ctx.count("emptied-district")
            ctx.nontrivial = moves >= 3

    for op, seed in plan["ops"]:
        r = RealRandom(seed)
        SIM.stream = Stream(seed_of("op", seed))
        SIM.set_budget(100000)
        s = r.choice(slots[-3:] + slots[:1])
        ctx.sig(op)
        if op == "move":
            f = hist.flips_for(r.choice(hist.MOVES), w, s.asg, parts, r, s.prev)
            if r.random() < .3:
                f = dict(r.sample(list(f.items()), len(f)))
            new = s.plan.flip(f)
            moves += 1
            ctx.step()
            add(new, hist.apply(s.asg, f), s.asg, r.random() < .6)
            hist.check_views(ctx, s.plan, w, s.asg, parts, r.random() < .2, " (source of a move)")
            ctx.event("move", len(f))
        elif op == "bad":
            good = hist.flips_for("multi", w, s.asg, parts, r)
            kind = r.choice(["node", "district"])
            f = {**good, "no such node": parts[0]} if kind == "node" else {**good, r.choice(w.nodes): "no such district"}
            f = dict(r.sample(list(f.items()), len(f)))
            try:
                q = s.plan.flip(f)
                if kind == "node":
                    ctx.fail("bad-move", "a move of an unknown node was taken")
            except Exception:
                ctx.fault("failing-move")
            hist.check_views(ctx, s.plan, w, s.asg, parts, True, " (source of a failed move)")
            ctx.nontrivial = moves >= 3
        elif op == "look":
            hist.check_views(ctx, s.plan, w, s.asg, parts)
        elif op == "erase":
            s.plan.parent = None
        elif op == "forget" and len(slots) > 1:
            slots.pop(r.randrange(1, len(slots)))
        elif op == "reroot" and plan["cls"] != "grid" and set(s.asg.values()) == set(parts):
            A = s.plan.assignment
            how = r.choice(["to_dict", "to_series", "self", "copy", "items"])
            src = {"to_dict": lambda: A.to_dict(), "to_series": lambda: A.to_series(), "self": lambda: A,
                   "copy": lambda: A.copy(), "items": lambda: dict(A.items())}[how]()
            q = cls(s.plan.graph, src, ups, use_default_updaters=plan["cls"] == "geo")
            ctx.fault("reroot:" + how)
            add(q, dict(s.asg), None, True)
        elif op == "chain":
            L = hist.lib_proposals()
            if not has_cut:
                L = {"any": L["any"]}
            if plan["cls"] == "plain":
                L.pop("every", None)
            name = r.choice(sorted(L))
            last = [None]

            def proposal(p):
                a = hist.read_asg(ctx, p, w)
                if not w.cut(a):
                    q = p.flip(hist.flips_for("refill", w, a, parts, r))
                else:
                    q = L[name](p)
                if q is not p:
                    b = hist.apply(a, dict(q.flips))
                    hist.check_views(ctx, q, w, b, parts, r.random() < .3)
                return q
            for p in MarkovChain(proposal, lambda p: True, lambda p: r.random() < .7, s.plan, r.randint(2, 6)):
                ctx.step()
                hist.check_views(ctx, p, w, hist.read_asg(ctx, p, w), parts, r.random() < .3)
                last[0] = p
            slots.append(hist.Slot(last[0], hist.read_asg(ctx, last[0], w)))
    for s in slots:
        hist.check_views(ctx, s.plan, w, s.asg, parts, True, " (at the end)")
        if plan["cls"] == "grid":
            ctx.check(s.plan.as_list_of_lists() == [[s.asg[i, j] for i in range(m)] for j in range(n)], "grid-view",
                      "as_list_of_lists disagrees")


def simpler(plan):
    for n in range(2, plan["world"]["n"]):
        yield dict(plan, world=dict(plan["world"], n=n))
    for f, v in (("shape", "path"), ("labels", "int"), ("plabels", "int"), ("pops", "unit"), ("weight", False), ("k", 2)):
        if plan["world"][f] != v:
            yield dict(plan, world=dict(plan["world"], **{f: v}))
    for f, v in (("form", "dict"), ("gform", "graph"), ("cls", "plain")):
        if plan[f] != v:
            yield dict(plan, **{f: v})
