"""C20: spanning trees, balanced cuts and two-way splits under every draw style, root, retry and failure."""
import math
from fractions import Fraction
from ..seam import RealRandom, SIM, Stream
from .. import world, hist, stats, branch, ref
from .. import recomlib as R
from ..core import seed_of

RUNS = {"quick": 7000, "thorough": 100000}
SHRINK = ["ops"]
RULE = ("one run = one world and a sequence of draws of spanning trees, balanced-cut searches on them (both finders, one- and two-sided, "
        "several roots and repeats) and two-way splits, each under its own draw style and possibly with a fault (finder that fails the "
        "first j times, attempts that run out, interrupt at the n-th draw, tree function that raises), compared with an exact "
        "reference; some runs sample one small graph many times and compare tree frequencies with uniform; non-trivial if a cut was "
        "found or a fault hit")
ASSUMPTIONS = ["graphs have at least two nodes and are connected", "cuts whose imbalance equals the tolerance to within 1e-9 are judged only when the numbers are exact",
               "frequency tests alarm only below an upper-bounded p-value of 1e-9"]
STYLES = ["plain", "plain", "plain", "extreme", "ties", "const", "low"]


class Boom(Exception):
    pass


def gen(rng, tier, i):
    if i % 80 == 27:                                   # walks here are long before they hit the tree
        return dict(mode="freq", world=world.spec(rng, 7, 20, 1, 2, shapes=["cycle", "cycle", "hub", "ladder", "grid", "planar"]), n=1200,
                    kind=rng.choice(["frozen", "graph", "sub"]), ops=[])
    if i % 20 == 7:
        return dict(mode="freq", world=world.spec(rng, 3, 6, 1, 2, shapes=["grid", "cycle", "planar", "ladder", "complete", "diag", "barbell"]), n=3000,
                    kind=rng.choice(["frozen", "graph", "sub"]), ops=[])
    ops = [dict(kind=rng.choice(["tree", "cuts", "cuts", "cuts", "split", "split", "split", "split"]), seed=rng.randrange(1 << 30), style=rng.choice(STYLES),
                gen=rng.choice(["random", "uniform", "uniform", "surcharge", "own"]), eps=rng.choice([0, .01, .1, .125, .25, .25, .5, .75, 1]),
                tgt=rng.choice(["half", "third", "node", "odd", "quarter", "side"]), one=rng.random() < .5,
                bal=rng.choice(["memo", "contract"]), fn=rng.choice(["tree", "tree", "random", "random_once"]),
                repeats=rng.choice([1, 1, 2, 5]), attempts=rng.choice([1, 2, 5, 30]), resel=rng.random() < .3, flaky=rng.choice([0, 0, 0, 1, 2, 4]),
                given=rng.random() < .2, sub=rng.random() < .5, choice=rng.choice(["lib", "first", "last", "own"]),
                fault=rng.choice([None] * 8 + ["tree-raise", "interrupt"]), frozen=rng.random() < .3) for _ in range(rng.randint(1, 8))]
    if i % 1750 == 800:
        for op in ops:                                 # half or more of the map, by trees that are quick to draw
            op.update(gen=rng.choice(["random", "surcharge"]), eps=rng.choice([.25, .5, .75]), tgt=rng.choice(["half", "third"]), attempts=30, repeats=1)
        return dict(mode="ops", world=dict(world.vast(rng), n=rng.randint(1200, 1400)), ops=ops[:4], cpu=240)
    return dict(mode="ops", world=world.spec(rng, 2, rng.choice([3, 6, 9, 14, 22]), 1, 3, wide=.02), ops=ops)


def is_tree(ctx, w, nodes, t, tag):
    E = {frozenset(e) for e in w.edges if e[0] in nodes and e[1] in nodes}
    te = [frozenset(e) for e in t.edges]
    ctx.check(set(t.nodes) == set(nodes), "tree-nodes", lambda: "%s: tree covers %r, not %r" % (tag, sorted(t.nodes, key=repr), sorted(nodes, key=repr)))
    ctx.check(len(te) == len(nodes) - 1 and len(set(te)) == len(te), "tree-edges", lambda: "%s: %d edges for %d nodes" % (tag, len(te), len(nodes)))
    ctx.check(set(te) <= E, "tree-foreign", lambda: "%s: the tree has edges the graph has not" % tag)
    adj = {v: [] for v in nodes}
    for e in te:
        a, b = tuple(e)
        adj[a].append(b)
        adj[b].append(a)
    seen, todo = set(), [next(iter(nodes))]
    while todo:
        u = todo.pop()
        if u not in seen:
            seen.add(u)
            todo += adj[u]
    ctx.check(len(seen) == len(nodes), "tree-split", lambda: "%s: the tree is not connected" % tag)
    return te, adj


def sides(nodes, adj, e):
    a, b = tuple(e)
    seen, todo = {a}, [a]
    while todo:
        u = todo.pop()
        for x in adj[u]:
            if x not in seen and not (u == a and x == b):
                seen.add(x)
                todo.append(x)
    return frozenset(seen), frozenset(nodes) - seen


def marginals(ctx, w, draw, n, seed):
    """How often each edge, and each pair of edges with a common node, is in the tree: the transfer-current theorem gives the exact share."""
    import numpy as np
    ix = {v: q for q, v in enumerate(w.nodes)}
    B = np.zeros((len(w.edges), len(w.nodes)))
    for q, (a, b) in enumerate(w.edges):
        B[q, ix[a]], B[q, ix[b]] = 1, -1
    K = B @ np.linalg.pinv(B.T @ B) @ B.T
    want = {(q,): K[q, q] for q in range(len(w.edges))}
    for q, e in enumerate(w.edges):
        for t in range(q):
            if set(e) & set(w.edges[t]):
                want[t, q] = K[q, q] * K[t, t] - K[t, q] ** 2
    SIM.stream = Stream(seed_of("f", seed))
    got = dict.fromkeys(want, 0)
    name = {frozenset(e): q for q, e in enumerate(w.edges)}
    for j in range(n):
        t = draw()
        te = is_tree(ctx, w, set(w.nodes), t, "uniform")[0] if j % 50 == 0 else [frozenset(e) for e in t.edges]
        has = {name[e] for e in te}
        for k in want:
            got[k] += has.issuperset(k)
        ctx.step()

    def kl(a, b):
        return sum(x * math.log(x / y) for x, y in ((a, b), (1 - a, 1 - b)) if x > 0)
    for k, p in want.items():
        p = min(max(p, 1e-12), 1 - 1e-12)
        pv = 2 * len(want) * math.exp(-n * kl(got[k] / n, p))
        ctx.check(pv > 1e-9, "edge-frequency", lambda: "edges %r are in %d of %d trees, expected %.1f: p < %g" % ([w.edges[q] for q in k], got[k], n, n * p, pv))
    ctx.count("frequency-tests")
    ctx.event(sorted(got.values()))
    ctx.nontrivial = True


def verdict(pop, target, eps):
    """True/False, or None when too close to call in floating point."""
    p, t, e = Fraction(pop), Fraction(target), Fraction(eps)
    d = abs(p - t) - e * t
    exact = all(x.denominator <= 64 and abs(x) < 10 ** 6 for x in (p, t, e))
    if not exact and abs(d) < Fraction(1, 10 ** 9) * (1 + t):
        return None
    return d <= 0


def execute(plan, ctx):
    import random
    from gerrychain import Graph, Partition
    from gerrychain.graph import FrozenGraph
    from gerrychain import tree as T
    w = world.World(plan["world"])
    if len(w.nodes) < 2:
        return
    g = w.graph()
    ctx.sig(w.edges)

    if plan["mode"] == "freq":
        nt = ref.spanning_trees(w, set(w.nodes))
        if nt < 2:
            return
        G = {"graph": g, "frozen": FrozenGraph(w.graph()), "sub": FrozenGraph(w.graph()).subgraph(list(w.nodes))}[plan["kind"]]
        n = min(plan["n"], 60 * nt)
        if nt > 130:
            return marginals(ctx, w, lambda: T.uniform_spanning_tree(G), n, plan["seed"])
        SIM.stream = Stream(seed_of("f", plan["seed"]))
        c = {}
        for _ in range(n):
            t = T.uniform_spanning_tree(G)
            k = frozenset(frozenset(e) for e in t.edges)
            if k not in c:
                is_tree(ctx, w, set(w.nodes), t, "uniform")
            c[k] = c.get(k, 0) + 1
            ctx.step()
        ctx.check(len(c) <= nt, "tree-count", "more trees than the graph has")
        pv = branch.uniform_test(c, {**{x: Fraction(1, nt) for x in c}, **{("unseen", j): Fraction(1, nt) for j in range(nt - len(c))}}, n)
        ctx.check(pv > 1e-9, "frequency", lambda: "trees drawn %r times, expected %d each (%d trees), p < %g" % (sorted(c.values()), n // nt, nt, pv))
        ctx.count("frequency-tests")
        ctx.event(sorted(c.values()))
        ctx.nontrivial = True
        return

    found = 0
    for op in plan["ops"]:
        r = RealRandom(op["seed"])
        SIM.stream = Stream(seed_of("d", op["seed"]), op["style"])
        SIM.set_budget(400000)
        ctx.sig(op["kind"], op["style"], op["one"], op["bal"], op["fault"])
        nodes = set(w.nodes)
        if op["sub"]:                                  # a connected part of the graph
            a = r.choice(w.nodes)
            nodes, want = {a}, r.randint(2, len(w.nodes))
            while len(nodes) < want:
                nodes.add(r.choice(sorted({u for v in nodes for u in w.adj[v]} - nodes, key=repr)))
        G = g.subgraph(nodes) if op["sub"] else g
        if op["frozen"] and op["gen"] == "uniform":
            G = FrozenGraph(w.graph()).subgraph(nodes)
        pops = {v: w.attr[v]["pop"] for v in nodes}
        tot = sum(pops.values())

        def draw(graph, region_surcharge=None):
            if op["gen"] == "random":
                return T.random_spanning_tree(graph)
            if op["gen"] == "surcharge":
                return T.random_spanning_tree(graph, {"county": 1.5})
            if op["gen"] == "own":
                return R.rev_adj_tree(graph)
            return T.uniform_spanning_tree(graph)
        roots = {"lib": random.choice, "first": lambda s: s[0], "last": lambda s: s[-1], "own": lambda s: s[r.randrange(len(s))]}[op["choice"]]
        if op["kind"] in ("tree", "cuts"):
            t = draw(G)
            te, adj = is_tree(ctx, w, nodes, t, op["gen"])
            ctx.step()
            ctx.event("tree", sorted(map(lambda e: sorted(map(repr, e)), te)))
            if op["kind"] == "tree":
                continue
        if op["tgt"] == "half":
            target = tot / 2
        elif op["tgt"] == "third":
            target = tot / 3
        elif op["tgt"] == "quarter":
            target = tot / 4
        elif op["tgt"] == "node":
            target = r.choice(sorted(pops.values()))
        elif op["tgt"] == "side":
            target = sum(pops[v] for v in r.sample(sorted(nodes, key=repr), r.randint(1, len(nodes))))
        else:
            target = tot / 2 + r.randint(-3, 3) / 4
        if target <= 0:
            continue
        eps = op["eps"]

        def okside(s):
            return verdict(sum(pops[v] for v in s), target, eps)

        def check_cuts(cuts, te, adj, memo, one, tag):
            got = {}
            for c in cuts:
                e = frozenset(c.edge)
                ctx.check(e in set(te), "cut-edge", lambda: "%s: %r is not an edge of the tree" % (tag, c.edge))
                ctx.check(e not in got, "cut-twice", lambda: "%s: edge %r twice" % (tag, c.edge))
                got[e] = frozenset(c.subset)
                ctx.check(got[e] in sides(nodes, adj, e), "cut-side", lambda: "%s: subset %r is not a side of %r" % (tag, sorted(got[e], key=repr), c.edge))
            for e in te:
                a, b = sides(nodes, adj, e)
                va, vb = okside(a), okside(b)
                if one:
                    if e in got:
                        ctx.check(okside(got[e]) is not False, "one-sided", lambda: "%s: side of population %r returned for target %r +- %r" % (
                            tag, sum(pops[v] for v in got[e]), target, eps))
                    elif memo:
                        ctx.check(va is not True and vb is not True, "missed", lambda: "%s: edge %r has a suitable side and is missing" % (tag, tuple(e)))
                    else:                        # wherever the search is rooted, one of two suitable sides lies away from the root
                        ctx.check(not (va is True and vb is True), "missed", lambda: "%s: edge %r has two suitable sides and is missing" % (tag, tuple(e)))
                else:
                    both = None if va is None or vb is None else (va and vb)
                    if va is False or vb is False:
                        both = False
                    ctx.check(both is None or both == (e in got), "two-sided", lambda: "%s: edge %r with populations %r is %s for target %r +- %r" % (
                        tag, tuple(e), [sum(pops[v] for v in x) for x in (a, b)], "returned" if e in got else "missing", target, eps))
            return got

        if op["kind"] == "cuts":
            for memo in (True, False):
                f = T.find_balanced_edge_cuts_memoization if memo else T.find_balanced_edge_cuts_contraction
                for rep in range(r.randint(1, 3)):
                    one = op["one"] if rep % 2 == 0 else not op["one"]
                    h = T.PopulatedGraph(t, pops, target, eps)
                    cuts = f(h, one_sided_cut=one, choice=roots)
                    n = len(check_cuts(cuts, te, adj, memo, one, "memoised" if memo else "contracting"))
                    found += n
                    if memo and r.random() < .5:
                        n2 = check_cuts(f(h, one_sided_cut=one, choice=roots), te, adj, True, one, "memoised again")
                    ctx.count("searches")
                    ctx.step()
                    ctx.check({frozenset(e) for e in t.edges} == set(te) and set(t.nodes) == nodes, "tree-changed", "the search changed the tree")
                    ctx.check(pops == {v: w.attr[v]["pop"] for v in nodes}, "pops-changed", "the search changed the populations")
            ctx.event("cuts", found)
        else:
            base = T.find_balanced_edge_cuts_contraction if op["bal"] == "contract" else T.find_balanced_edge_cuts_memoization
            rec, given = dict(calls=0, cuts=[], trees=[]), None

            def st(graph, region_surcharge=None):
                if op["fault"] == "tree-raise" and len(rec["trees"]) >= op["repeats"] % 3:
                    ctx.fault("tree-function-raised")
                    raise Boom()
                t = draw(graph, region_surcharge)
                rec["trees"].append(rec["calls"])
                return t

            def bal(h, one_sided_cut=False, choice=random.choice):
                rec["calls"] += 1
                te, adj = is_tree(ctx, w, nodes, h.graph, "split")
                if given and rec["calls"] <= op["repeats"]:
                    ctx.check(set(te) == given, "given-tree", "the spanning tree the caller provided was not the one searched first")
                if rec["calls"] <= op["flaky"]:
                    ctx.fault("finder-failed")
                    rec["cuts"] = []
                    return []
                ctx.check(bool(one_sided_cut) == op["one"], "one-sided-lost", "the one-sided request did not reach the finder")
                rec["cuts"] = base(h, one_sided_cut=one_sided_cut, choice=choice)
                check_cuts(rec["cuts"], te, adj, op["bal"] == "memo", op["one"], "split")
                return rec["cuts"]
            kw = dict(node_repeats=op["repeats"], spanning_tree_fn=st, balance_edge_fn=bal, one_sided_cut=op["one"], choice=roots, max_attempts=op["attempts"])
            if op["given"]:
                kw["spanning_tree"] = draw(G)
                given = {frozenset(e) for e in kw["spanning_tree"].edges}
            if op["fn"] == "tree":
                fn, kw["allow_pair_reselection"], kw["warn_attempts"] = T.bipartition_tree, op["resel"], 3
            else:
                fn = T.bipartition_tree_random
                kw["repeat_until_valid"] = op["fn"] == "random"
            if op["fault"] == "interrupt":
                SIM.stream = R.CutStream(seed_of("d", op["seed"]), op["style"], r.randint(1, 30))
            try:
                s = fn(G, "pop", target, eps, **kw)
            except R.Cutoff:
                ctx.fault("interrupt-at-draw")
                continue
            except Boom:
                continue
            except T.ReselectException:
                ctx.check(op["fn"] == "tree" and op["resel"], "reselect", "pair reselection was not allowed")
                ctx.check(rec["calls"] == op["attempts"] and not rec["cuts"], "gave-up", lambda: "gave up after %d of %d attempts" % (rec["calls"], op["attempts"]))
                ctx.count("exhausted")
                continue
            except RuntimeError:
                ctx.check(not (op["fn"] == "tree" and op["resel"]), "no-reselect", "reselection was allowed, but the failure was final")
                ctx.check(rec["calls"] == op["attempts"] and not rec["cuts"], "gave-up", lambda: "gave up after %d of %d attempts" % (rec["calls"], op["attempts"]))
                ctx.count("exhausted")
                continue
            finally:
                ctx.step()
            ctx.check(op["fault"] != "tree-raise" or rec["trees"] or op["given"], "swallowed", "the tree function's error was swallowed")
            if s is None:
                ctx.check(op["fn"] == "random_once" and not rec["cuts"], "none", "no set was returned although %d cuts were found" % len(rec["cuts"]))
                continue
            s = frozenset(s)
            found += 1
            ctx.event("split", sorted(map(repr, s)))
            ctx.check(bool(s) and s < nodes, "not-proper", lambda: "the split %r is not a proper part" % (s,))
            ctx.check(w.connected(s) and w.connected(nodes - s), "disconnected", "a side of the split is not connected")
            ctx.check(rec["calls"] <= op["attempts"] and s in {frozenset(c.subset) for c in rec["cuts"]}, "not-a-cut", "the split is not one of the cuts found last")
            ctx.check(okside(s) is not False and (op["one"] or okside(nodes - s) is not False), "unbalanced", lambda: "split populations %r, %r for target %r +- %r%s" % (
                sum(pops[v] for v in s), tot - sum(pops[v] for v in s), target, eps, " (one-sided)" if op["one"] else ""))
            # a tree is used for node_repeats roots before a new one is drawn
            gaps = [b - a for a, b in zip(rec["trees"], rec["trees"][1:])]
            ctx.check(all(x == op["repeats"] for x in gaps), "repeats", lambda: "trees redrawn after %r roots, expected %d" % (gaps, op["repeats"]))
        ctx.state([w.edges, op["tgt"], target, eps])
    ctx.nontrivial = found > 0 or bool(ctx.faults)


def simpler(plan):
    for n in range(2, plan["world"]["n"]):
        yield dict(plan, world=dict(plan["world"], n=n))
    for f, v in (("shape", "path"), ("labels", "int"), ("pops", "unit"), ("weight", False)):
        if plan["world"][f] != v:
            yield dict(plan, world=dict(plan["world"], **{f: v}))
    for j, op in enumerate(plan["ops"]):
        for f, v in (("style", "plain"), ("repeats", 1), ("fault", None), ("flaky", 0), ("given", False), ("sub", False), ("frozen", False),
                     ("choice", "lib"), ("gen", "random"), ("one", False), ("tgt", "half")):
            if op[f] != v:
                yield dict(plan, ops=plan["ops"][:j] + [dict(op, **{f: v})] + plan["ops"][j + 1:])
