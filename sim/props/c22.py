"""C22: region-aware trees and cut choices, observed through the library's own tree and finder parameters."""
from ..seam import RealRandom, SIM, Stream
from .. import world, hist, stats
from .. import recomlib as R
from ..core import seed_of
from ..boom import BOOM, boom

RUNS = {"quick": 6500, "thorough": 100000}
SHRINK = ["ops"]
RULE = ("one run = one world with up to four region types (blocks, random, or partly missing) and a sequence of region-aware tree "
        "draws, two-way splits, recombination moves and chains, each with its own surcharges, draw style (plain, extreme, tied, constant, "
        "low) and possibly a fault (finder that fails the first j times, error in the tree function, interrupt at the n-th "
        "draw); trees are compared with the minimum total weight and surcharge, the chosen cut with the documented preference; "
        "non-trivial if a choice among several balanced cuts was judged or a fault hit")
ASSUMPTIONS = ["region preference is judged for trees that carry the nodes' data (random_spanning_tree or a user's own)",
               "combinations of region types with equal size and equal total surcharge are equally good", "edges with both memberships missing "
               "may or may not count as a border when the cut is chosen"]
STYLES = ["plain", "plain", "plain", "extreme", "ties", "const", "low"]
KEYS = ["ra", "rb", "rc", "rd"]


def gen(rng, tier, i):
    def sur():
        ks = rng.sample(KEYS, rng.choice([0, 1, 1, 2, 2, 3, 3, 4]))
        vals = rng.choice([[1, 2, 3, 5, 8], [.25, .5, 1.5, 2.75], [0, 1, 1, 2], [1], [10, 20, 40, 30]])
        return {k: rng.choice(vals) for k in ks}
    ops = [dict(kind=rng.choice(["tree", "split", "split", "split", "recom", "recom", "chain", "none"]), seed=rng.randrange(1 << 30), style=rng.choice(STYLES),
                sur=sur(), eps=rng.choice([.125, .25, .5, .75, .9, .9]), tgt=rng.choice(["half", "half", "ideal"]), bal=rng.choice(["memo", "memo", "contract"]),
                one=rng.random() < .2, repeats=rng.choice([1, 1, 3]), flaky=rng.choice([0, 0, 0, 1, 2]), fault=rng.choice([None] * 8 + ["tree-raise", "interrupt"]),
                st=rng.choice(["lib", "lib", "own"])) for _ in range(rng.randint(1, 6))]
    return dict(world=world.spec(rng, 4, rng.choice([8, 12, 20]), 2, 4, shapes=["grid", "grid", "diag", "path", "cycle", "planar", "ladder", "tree", "complete"], wide=.02),
                regions=[rng.choice(["blocks", "blocks", "random", "missing", "one"]) for _ in KEYS], nreg=rng.randint(2, 4), falsy=rng.random() < .4, ops=ops)


def execute(plan, ctx):
    import random
    from functools import partial
    from gerrychain import Partition, MarkovChain
    from gerrychain.proposals import recom
    from gerrychain.proposals.tree_proposals import MetagraphError
    from gerrychain import tree as T
    w = world.World(plan["world"])
    parts = w.parts
    g = w.graph()
    rr = RealRandom(plan["seed"])
    reg = {}
    for k, kind in zip(KEYS, plan["regions"]):
        n = min(plan["nreg"], len(w.nodes))
        if kind == "one":
            reg[k] = {v: "x" for v in w.nodes}
        elif kind in ("random", "missing"):
            reg[k] = {v: rr.choice(["x", "y", "z"][:max(2, n - 1)] + ([None] if kind == "missing" else [])) for v in w.nodes}
        else:
            reg[k] = world.region_growth(w, ["%s%d" % (k, j) for j in range(n)], rr)
        if plan["falsy"] and kind != "one":               # a region may be called 0 or ""; only None is no region
            a = rr.choice(sorted({x for x in reg[k].values() if x is not None}, key=repr) or ["x"])
            z = rr.choice([0, "", 0.0, ()])
            reg[k] = {v: z if x == a else x for v, x in reg[k].items()}
        for v in w.nodes:
            g.nodes[v][k] = reg[k][v]
    ctx.sig(w.edges, plan["regions"])

    def border(e, k):                                     # for the tree's weight
        a, b = (reg[k][v] for v in e)
        return a != b or a is None or b is None

    def crosses(e, k):                                    # for the cut: None if undecided
        a, b = (reg[k][v] for v in e)
        return None if a is None and b is None else a != b

    def surcharge(e, sur):
        return sum(s for k, s in sur.items() if border(tuple(e), k))

    def kruskal(nodes, edges, weight):
        root = {v: v for v in nodes}

        def find(x):
            while root[x] != x:
                root[x] = root[root[x]]
                x = root[x]
            return x
        tot, used = 0, 0
        for e in sorted(edges, key=weight):
            a, b = find(e[0]), find(e[1])
            if a != b:
                root[a] = b
                tot += weight(e)
                used += 1
        return tot

    def check_tree(graph, t, sur, tag):
        nodes = set(graph.nodes)
        E = [e for e in w.edges if e[0] in nodes and e[1] in nodes]
        te = [tuple(e) for e in t.edges]
        ctx.check(set(t.nodes) == nodes and len(te) == len(nodes) - 1 and {frozenset(e) for e in te} <= {frozenset(e) for e in E}, "tree", "%s: not a spanning tree" % tag)
        ctx.check(kruskal(nodes, te, lambda e: 0) == 0 and connected(nodes, te), "tree", "%s: not connected" % tag)
        if SIM.stream.style != "extreme" and all(float(s).is_integer() for s in sur.values()):
            # draws are (well) below one: the integer surcharge decides first
            got, best = sum(surcharge(e, sur) for e in te), kruskal(nodes, E, lambda e: surcharge(e, sur))
            ctx.check(got == best, "tree-surcharge", lambda: "%s: tree surcharge %r, the least possible is %r (%r)" % (tag, got, best, sur))
            ctx.count("tree-surcharge-judged")
        und = graph
        wt = {frozenset(e): und.edges[e].get("random_weight") for e in und.edges}
        if all(x is not None for x in wt.values()):
            for e in E:
                d = wt[frozenset(e)] - surcharge(e, sur)
                ctx.check(-1e-9 <= d < 1 + 1e-9, "weight", lambda: "%s: edge %r has weight %r with surcharge %r: not a draw plus the surcharge" % (tag, e, wt[frozenset(e)], surcharge(e, sur)))
            got, best = sum(wt[frozenset(e)] for e in te), kruskal(nodes, E, lambda e: wt[frozenset(e)])
            ctx.check(got <= best + 1e-9, "not-minimal", lambda: "%s: tree weight %r, minimum %r" % (tag, got, best))
            ctx.count("tree-minimal-judged")

    def connected(nodes, edges):
        adj = {v: [] for v in nodes}
        for a, b in edges:
            adj[a].append(b)
            adj[b].append(a)
        seen, todo = set(), [next(iter(nodes))]
        while todo:
            u = todo.pop()
            if u not in seen:
                seen.add(u)
                todo += adj[u]
        return len(seen) == len(nodes)

    def allowed(cuts, sur):
        """The subsets the documented preference may choose, or None if it cannot be judged."""
        if len(sur) == 0 or len(sur) > 3:
            top = max(c.weight for c in cuts)
            return [c for c in cuts if c.weight == top]
        info = {}
        for c in cuts:
            x = {k: crosses(tuple(c.edge), k) for k in sur}
            if None in x.values():
                return None
            info[id(c)] = frozenset(k for k in sur if x[k])
        rank = lambda s: (len(s), sum(sur[k] for k in s))
        best = max(rank(info[id(c)]) for c in cuts)
        groups = {}
        for c in cuts:
            r = rank(info[id(c)])
            if r[0] == best[0] and abs(r[1] - best[1]) < 1e-9:
                groups.setdefault(info[id(c)], []).append(c)
        out = []
        for cs in groups.values():
            top = max(c.weight for c in cs)
            out += [c for c in cs if c.weight == top]
        return out

    init = Partition(g, dict(w.start), stats.make(w, ["cut_edges", "pop"]), use_default_updaters=False)
    cur, asg = init, dict(w.start)
    judged = 0

    def machinery(op, sur, rec):
        base = T.find_balanced_edge_cuts_contraction if op["bal"] == "contract" else T.find_balanced_edge_cuts_memoization

        def st(graph, region_surcharge=None):
            if op["fault"] == "tree-raise":
                ctx.fault("tree-function-raised")
                raise boom(ctx)
            ctx.check((region_surcharge or {}) == sur, "lost", lambda: "the tree function got surcharges %r, not %r" % (region_surcharge, sur))
            if op["st"] == "own":
                t = R.rev_adj_tree(graph)
                for v in t.nodes:
                    t.nodes[v].update(graph.nodes[v])
                return t
            t = T.random_spanning_tree(graph, region_surcharge)
            check_tree(graph, t, sur, "tree")
            return t

        def bal(h, one_sided_cut=False, choice=random.choice):
            rec["calls"] += 1
            if rec["calls"] <= op["flaky"]:
                ctx.fault("finder-failed")
                return []
            rec["cuts"] = list(base(h, one_sided_cut=one_sided_cut, choice=choice))
            rec["nodes"] = frozenset(h.graph.nodes)
            for c in rec["cuts"]:
                x = h.graph.edges[c.edge].get("random_weight")
                ctx.check(x is None or c.weight == x, "cut-weight", lambda: "cut %r has weight %r, its edge %r" % (c.edge, c.weight, x))
                ctx.check(c.weight is not None, "cut-weight", "a cut without weight")
            return rec["cuts"]
        return st, bal

    def judge(s, rec, sur, target, eps, one, tag):
        nonlocal judged
        s = frozenset(s)
        ok = allowed(rec["cuts"], sur)
        subs = [frozenset(c.subset) for c in rec["cuts"]]
        ctx.check(s in subs or rec["nodes"] - s in subs, "not-a-cut", "%s: the split is not one of the balanced cuts" % tag)
        if ok is not None:
            good = [frozenset(c.subset) for c in ok]
            ctx.check(s in good or rec["nodes"] - s in good, "preference", lambda: "%s: surcharges %r; chose cut %r, preferred %r; cuts %r" % (
                tag, sur, [c.edge for c in rec["cuts"] if frozenset(c.subset) in (s, rec["nodes"] - s)], [c.edge for c in ok],
                [(c.edge, c.weight, [k for k in sur if crosses(tuple(c.edge), k)]) for c in rec["cuts"]]))
            if len(rec["cuts"]) > 1:
                judged += 1
        for side in ([s] if one else [s, rec["nodes"] - s]):
            ctx.check(w.connected(side) and R.balanced(w, side, target, eps), "illegal", "%s: a redrawn district is not connected and balanced" % tag)

    for op in plan["ops"]:
        r = RealRandom(op["seed"])
        SIM.stream = Stream(seed_of("d", op["seed"]), op["style"])
        if op["fault"] == "interrupt":
            SIM.stream = R.CutStream(seed_of("d", op["seed"]), op["style"], r.randint(1, 40))
        SIM.set_budget(300000)
        sur, kind, eps = op["sur"], op["kind"], op["eps"]
        ctx.sig(kind, sur, op["style"])
        given = dict(sur)
        rec = dict(calls=0, cuts=[], nodes=frozenset())
        st, bal = machinery(op, sur, rec)
        try:
            if kind == "tree":
                und = g
                t = T.random_spanning_tree(und, given)
                check_tree(und, t, sur, "tree")
                sub = init.graph.graph.subgraph(init.parts[parts[0]])
                if len(sub) > 1:
                    check_tree(sub, T.random_spanning_tree(sub, given), sur, "tree of a district")
                ctx.event("tree", sorted(sorted(map(repr, e)) for e in t.edges))
            elif kind == "split":
                target = w.total() / 2
                if target <= 0:
                    continue
                s = T.bipartition_tree(g, "pop", target, eps, node_repeats=op["repeats"], spanning_tree_fn=st, balance_edge_fn=bal, region_surcharge=given,
                                       one_sided_cut=op["one"], max_attempts=12)
                judge(s, rec, sur, target, eps, op["one"], "split")
                ctx.event("split", sorted(map(repr, s)))
            elif kind in ("recom", "chain"):
                pairs = sorted(w.adjacent_pairs(asg), key=lambda s: sorted(map(repr, s)))
                if not pairs:
                    continue
                target = w.total() / len(parts)
                if op["tgt"] == "half":
                    pr = r.choice(pairs)
                    target = sum(w.attr[v]["pop"] for v in w.nodes if asg[v] in pr) / 2
                if target <= 0:
                    continue
                meth = partial(T.bipartition_tree, spanning_tree_fn=st, balance_edge_fn=bal, max_attempts=12, allow_pair_reselection=True)
                prop = partial(recom, pop_col="pop", pop_target=target, epsilon=eps, node_repeats=op["repeats"], region_surcharge=given, method=meth)

                def proposal(p):
                    nonlocal cur, asg
                    a = hist.read_asg(ctx, p, w)
                    q = prop(p)
                    new = hist.read_asg(ctx, q, w)
                    ctx.check(all(new[v] == a[v] for v in w.nodes if v not in rec["nodes"]), "outside", "a node outside the pair moved")
                    lv = w.level(new, parts)
                    ds = {new[v] for v in rec["nodes"]}
                    ctx.check(len(ds) == 2, "pair", "the redrawn nodes are not two districts")
                    judge(lv[next(iter(ds))], rec, sur, target, eps, False, "recombination")
                    rec["calls"] = 0
                    ctx.step()
                    return q
                if kind == "recom":
                    q = proposal(cur)
                    cur, asg = q, hist.read_asg(ctx, q, w)
                else:
                    for q in MarkovChain(proposal, lambda p: True, lambda p: r.random() < .8, cur, 5):
                        cur, asg = q, hist.read_asg(ctx, q, w)
                ctx.event("recom", sorted(asg.items(), key=repr))
            else:                                          # no surcharges, in every way of saying so
                target = w.total() / 2
                if target <= 0:
                    continue
                outs = []
                for kw in ({}, {"region_surcharge": None}, {"region_surcharge": {}}):
                    SIM.stream = Stream(seed_of("d", op["seed"]), op["style"])
                    rec["calls"] = 99
                    op2 = dict(op, st="lib", fault=None)
                    st2, bal2 = machinery(op2, {}, rec)
                    try:
                        s = T.bipartition_tree(g, "pop", target, eps, spanning_tree_fn=st2, balance_edge_fn=bal2, max_attempts=12, **kw)
                        top = max(c.weight for c in rec["cuts"])
                        if kw.get("region_surcharge", 1) == {}:
                            judge(s, rec, {}, target, eps, False, "no surcharge")
                        outs.append([frozenset(c.subset) for c in rec["cuts"]])
                    except RuntimeError:
                        outs.append(None)
                ctx.check(outs[0] == outs[1] == outs[2], "ordinary", "omitting the surcharges and giving none find different cuts")
                ctx.count("without-surcharge")
            ctx.step()
        except BOOM:
            pass
        except R.Cutoff:
            ctx.fault("interrupt-at-draw")
        except (RuntimeError, MetagraphError) as e:
            ctx.count("no-split")
        ctx.check(given == sur, "surcharge-changed", "the surcharge dictionary was changed")
        ctx.check(hist.read_asg(ctx, init, w) == w.start, "changed", "the initial plan changed")
        ctx.state([w.edges, asg, sur])
    ctx.count("choices-judged", judged)
    ctx.nontrivial = judged > 0 or bool(ctx.faults)


def simpler(plan):
    for n in range(4, plan["world"]["n"]):
        yield dict(plan, world=dict(plan["world"], n=n))
    for f, v in (("shape", "path"), ("labels", "int"), ("plabels", "int"), ("pops", "unit"), ("weight", False), ("k", 2)):
        if plan["world"][f] != v:
            yield dict(plan, world=dict(plan["world"], **{f: v}))
    for j in range(4):
        if plan["regions"][j] != "one":
            yield dict(plan, regions=plan["regions"][:j] + ["one"] + plan["regions"][j + 1:])
    for j, op in enumerate(plan["ops"]):
        for f, v in (("style", "plain"), ("repeats", 1), ("fault", None), ("flaky", 0), ("one", False), ("bal", "memo"), ("st", "lib")):
            if op[f] != v:
                yield dict(plan, ops=plan["ops"][:j] + [dict(op, **{f: v})] + plan["ops"][j + 1:])
        for k in op["sur"]:
            yield dict(plan, ops=plan["ops"][:j] + [dict(op, sur={a: b for a, b in op["sur"].items() if a != k})] + plan["ops"][j + 1:])
