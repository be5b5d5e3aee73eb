"""C19: reversible recombination; the final draw is placed exactly at, just below and just above the stated rate."""
import math
from fractions import Fraction
from ..seam import RealRandom, SIM, Stream, ONE_MINUS
from .. import world, hist, stats, branch
from .. import recomlib as R
from ..core import seed_of
from ..boom import BOOM, boom

RUNS = {"quick": 5500, "thorough": 100000}
SHRINK = ["ops"]
RULE = ("one run = one world and a sequence of reversible recombination proposals (direct or inside a chain), each with its own bound M, "
        "tolerance, balance finder, draw style and placement of the final draw (free, at, just below, just above the rate), and possibly "
        "a fault (balance finder that fails or returns too many cuts, error in the cut choice, interrupt at the n-th draw); plus, in some "
        "runs, repeated proposals from one plan whose pair and tree frequencies are compared with uniform; non-trivial if a proposal "
        "reached its final draw or a fault hit")
ASSUMPTIONS = ["proposals start from plans with connected (or empty) districts", "frequency tests alarm only below an upper-bounded p-value of 1e-9"]


class GiveUp(BaseException):
    pass


class Placed(Stream):
    """Once armed, the next random() returns a chosen value."""
    armed = None
    final = None

    def random(self):
        if self.armed is not None:
            self._tick()
            v, self.armed = self.armed, None
        else:
            v = super().random()
        self.last = v
        return v
    last = None
    at = None

    def _tick(self):
        super()._tick()
        if self.n == self.at:
            raise R.Cutoff()


def gen(rng, tier, i):
    if i % 25 == 3:
        return dict(mode="freq", world=world.spec(rng, 4, 6, 2, 3, shapes=["grid", "cycle", "planar", "ladder", "path"]), n=500,
                    eps=rng.choice([.5, .9]), repeat=False, ops=[])
    ops = [dict(kind=rng.choice(["one"] * 7 + ["chain", "chain", "vanish"]), seed=rng.randrange(1 << 30), M=rng.choice([1, 1, 2, 3, 4, 8, 16, 30]),
                eps=rng.choice([.01, .125, .25, .5, .5, .75, .9]), bal=rng.choice(["memo", "memo", "contract", "default"]),
                style=rng.choice(["plain", "plain", "plain", "extreme", "low"]), repeat=rng.random() < .3,
                tgt=rng.choice(["ideal", "pair", "pair"]), place=rng.choice(["free", "at", "below", "above", "zero", "top"]),
                fault=rng.choice([None] * 6 + ["bal-raise", "choice-raise", "interrupt", "many", "none"]), n=rng.choice([1, 3, 8]))
           for _ in range(rng.randint(1, 8))]
    return dict(mode="ops", world=world.spec(rng, 3, rng.choice([6, 9, 14]), 2, 4, wide=.02), ops=ops)


def near(c, ms, how):
    """A draw at or around the exact rate c/ms (None: not representable / out of range)."""
    p = Fraction(c, ms)
    f = c / ms
    if how == "at":
        return f if Fraction(f) == p and f < 1 else None
    if how == "below":
        v = f * (1 - 1e-12)
    else:
        v = f * (1 + 1e-12)
    return v if 0 <= v < 1 else None


def tree_cuts(w, edges, nodes, target, eps, slack):
    """Edges of a tree that balance both sides."""
    out = set()
    for e in edges:
        side = comp(nodes, edges, e)
        p = sum(w.attr[v]["pop"] for v in side)
        q = sum(w.attr[v]["pop"] for v in nodes) - p
        if all(abs(x - target) <= eps * target + slack for x in (p, q)):
            out.add(frozenset(e))
    return out


def comp(nodes, edges, without):
    adj = {v: [] for v in nodes}
    for a, b in edges:
        if {a, b} != set(without):
            adj[a].append(b)
            adj[b].append(a)
    s = next(iter(without))
    seen, todo = {s}, [s]
    while todo:
        u = todo.pop()
        for x in adj[u]:
            if x not in seen:
                seen.add(x)
                todo.append(x)
    return seen


def execute(plan, ctx):
    import random
    from gerrychain import Partition, MarkovChain
    from gerrychain.proposals import reversible_recom
    from gerrychain.proposals.tree_proposals import ReversibilityError
    from gerrychain import tree as T
    w = world.World(plan["world"])
    parts = w.parts
    if len(parts) < 2:
        return
    cur = Partition(w.graph(), dict(w.start), stats.make(w, ["cut_edges", "pop"]), use_default_updaters=False)
    asg = dict(w.start)
    ctx.sig(w.edges)
    E = [tuple(e) for e in w.edges]
    finals = 0

    class Rec:
        pass

    def propose(p, a, op, r, target, M, eps):
        """One real proposal, observed through its own parameters; returns (plan, record)."""
        nonlocal finals
        rec = Rec()
        rec.calls, rec.cuts, rec.chosen, rec.merged, rec.s, rec.many = 0, None, None, None, None, False
        st = Placed(seed_of("d", r.random()), op["style"])
        SIM.stream = st
        SIM.set_budget(200000)
        base = {"memo": T.find_balanced_edge_cuts_memoization, "contract": T.find_balanced_edge_cuts_contraction,
                "default": T.find_balanced_edge_cuts_memoization}[op["bal"]]
        fault, at = op["fault"], r.randint(1, 3)

        def bal(h, one_sided_cut=False, choice=random.choice):
            rec.calls += 1
            rec.merged = frozenset(h.graph.nodes)
            rec.tree = frozenset(frozenset(e) for e in h.graph.edges)
            if rec.calls > 60:
                raise GiveUp()
            if fault == "bal-raise" and rec.calls == at:
                ctx.fault("finder-raised")
                raise boom(ctx)
            rec.cuts = list(base(h, one_sided_cut=one_sided_cut, choice=choice))
            lo, hi = (tree_cuts(w, [tuple(e) for e in h.graph.edges], rec.merged, target, eps, x) for x in (-1e-9, 1e-9))
            got = {frozenset(c.edge) for c in rec.cuts}
            ctx.check(lo <= got <= hi and len(rec.cuts) == len(got), "cuts", lambda: "balanced cuts %r, expected %r" % (got, lo))
            ctx.check(w.connected(rec.merged) and len(h.graph.edges) == len(rec.merged) - 1 and
                      all(frozenset(e) in {frozenset(x) for x in E} for e in h.graph.edges), "tree", "not a spanning tree of the merged districts")
            if fault == "many" and rec.cuts:
                rec.cuts = (rec.cuts * (M + 1))[:M + 1]
                ctx.fault("finder-returned-too-many")
            if fault == "none":
                rec.cuts = []
                ctx.fault("finder-returned-none")
            rec.many = len(rec.cuts) > M
            return rec.cuts

        def choose(cuts):
            ctx.check(len(cuts) == len(rec.cuts), "choice", "the choice was offered other cuts than were found")
            if fault == "choice-raise":
                ctx.fault("choice-raised")
                raise boom(ctx)
            c = random.choice(cuts)
            rec.chosen = c
            sub = frozenset(c.subset)
            rec.s = sum(1 for x, y in E if x in rec.merged and y in rec.merged and ((x in sub) != (y in sub)))
            if op["place"] in ("at", "below", "above"):
                st.armed = near(len(cuts), M * rec.s, op["place"])
            elif op["place"] == "zero":
                st.armed = 0.0
            elif op["place"] == "top":
                st.armed = ONE_MINUS
            if st.armed is not None:
                ctx.count("placed:" + op["place"])
            st.last = None
            return c
        kw = dict(repeat_until_valid=True) if op["repeat"] else {}
        if fault == "interrupt":
            st.at = r.randint(1, 25)
        try:
            q = reversible_recom(p, "pop", target, eps, bal, M, choice=choose, **kw)
        except ReversibilityError:
            ctx.check(rec.many, "bound", lambda: "the bound M=%d was reported broken by %r cuts" % (M, rec.cuts and len(rec.cuts)))
            ctx.fault("bound-exceeded")
            return p, None
        except BOOM:
            ctx.check(fault in ("bal-raise", "choice-raise"), "raise", "unexpected error")
            return p, None
        except R.Cutoff:
            ctx.fault("interrupt-at-draw")
            return p, None
        except GiveUp:
            return p, None
        ctx.check(not rec.many, "unbound", lambda: "%d balanced cuts, more than M=%d, were not reported" % (len(rec.cuts), M))
        ctx.check(fault not in ("bal-raise",) or rec.calls < at, "swallowed", "the finder's error was swallowed")
        new = hist.read_asg(ctx, q, w)
        if rec.merged is not None:
            pairs = [pr for pr in w.adjacent_pairs(a) if frozenset(v for v in w.nodes if a[v] in pr) == rec.merged]
            ctx.check(bool(pairs), "pair", lambda: "the merged nodes %r are not two adjacent districts" % (sorted(rec.merged, key=repr),))
        if rec.chosen is None:
            ctx.check(q is p, "stay", "without a chosen cut the very same plan must be returned")
            ctx.check(rec.merged is None or not rec.cuts, "unchosen", "there were balanced cuts, but none was chosen")
            ctx.count("stay:nopair" if rec.merged is None else "stay:nocut")
            return q, rec
        rate = Fraction(len(rec.cuts), M * rec.s)
        if st.last is not None:
            u = Fraction(st.last)
            finals += 1
            if u != rate and abs(u - rate) < Fraction(1, 10 ** 14):
                return (q, rec)                                # too close to call in floating point
            moved = q is not p
            ctx.check(moved == (u < rate), "rate", lambda: "%s with final draw %r and rate %d/(%d*%d)" % (
                "moved" if moved else "stayed", st.last, len(rec.cuts), M, rec.s))
        else:
            ctx.check(rate >= 1 and q is not p, "nodraw", "no final draw was made")
        if q is not p:
            pr = pairs[0]
            lv = w.level(new, parts)
            ctx.check(all(new[v] == a[v] for v in w.nodes if v not in rec.merged), "outside", "a node outside the pair moved")
            ctx.check({frozenset(lv[x]) for x in pr} == {frozenset(rec.chosen.subset), rec.merged - frozenset(rec.chosen.subset)}, "sides",
                      "the new districts are not the two sides of the chosen cut")
            ctx.check(all(w.connected(lv[x]) and R.balanced(w, lv[x], target, eps) for x in pr), "illegal", lambda: "redrawn districts are not connected and balanced: %r" % (new,))
            ctx.check(q.parent is p, "parent", "the new plan does not descend from the given plan")
        return q, rec

    if plan["mode"] == "freq":
        target, eps, M = w.total() / len(parts), plan["eps"], len(w.nodes)
        if target <= 0:
            return
        op = dict(style="plain", bal="memo", fault=None, place="free", repeat=False)
        pc, tc, n = {}, {}, plan["n"]
        r = RealRandom(plan["seed"])
        for _ in range(n):
            q, rec = propose(cur, asg, op, r, target, M, eps)
            ctx.step()
            m = rec.merged if rec else None
            pc[m] = pc.get(m, 0) + 1
            if m:
                tc.setdefault(m, {})
                tc[m][rec.tree] = tc[m].get(rec.tree, 0) + 1
        k = len(parts)
        adj = w.adjacent_pairs(asg)
        probs = {frozenset(v for v in w.nodes if asg[v] in pr): 0 for pr in adj}
        for pr in adj:
            probs[frozenset(v for v in w.nodes if asg[v] in pr)] += Fraction(2, k * k)
        probs[None] = 1 - sum(probs.values())
        pv = branch.uniform_test(pc, {a: b for a, b in probs.items() if b}, n)
        ctx.check(pv > 1e-9, "pair-frequency", lambda: "pairs drawn %r times in %d proposals, p < %g" % (sorted(pc.values()), n, pv))
        for m, c in tc.items():
            from .. import ref
            nt = ref.spanning_trees(w, m)
            tn = sum(c.values())
            if nt > 1 and tn >= 10 * nt:
                pv = branch.uniform_test(c, {**{x: Fraction(1, nt) for x in c}, **{("unseen", j): Fraction(1, nt) for j in range(nt - len(c))}}, tn)
                ctx.check(pv > 1e-9, "tree-frequency", lambda: "trees drawn %r, expected uniform over %d" % (sorted(c.values()), nt))
                ctx.count("tree-frequency-tests")
        ctx.count("pair-frequency-tests")
        ctx.nontrivial = True
        return

    for op in plan["ops"]:
        r = RealRandom(op["seed"])
        ctx.sig(op["kind"], op["style"], op["M"], op["place"], op["fault"])
        target = w.total() / len(parts)
        if op["tgt"] == "pair" and w.adjacent_pairs(asg):
            pr = r.choice(sorted(w.adjacent_pairs(asg), key=lambda s: sorted(map(repr, s))))
            target = sum(w.attr[v]["pop"] for v in w.nodes if asg[v] in pr) / 2
        if target <= 0:
            continue
        if op["kind"] == "vanish":
            f = hist.flips_for("vanish", w, asg, parts, r)
            new = hist.apply(asg, f)
            if all(w.connected(s) for s in w.level(new, parts).values() if s):
                cur, asg = cur.flip(f), new
            continue
        keep, kept = cur, dict(asg)
        if op["kind"] == "one":
            for _ in range(op["n"]):
                q, rec = propose(cur, asg, op, r, target, op["M"], op["eps"])
                ctx.step()
                ctx.check(hist.read_asg(ctx, cur, w) == asg, "changed", "the plan the proposal started from changed")
                cur, asg = q, hist.read_asg(ctx, q, w)
                ctx.event(sorted(asg.items(), key=repr))
        else:
            seen = []

            def prop(p):
                q, rec = propose(p, hist.read_asg(ctx, p, w), op, r, target, op["M"], op["eps"])
                return q
            for q in MarkovChain(prop, lambda p: True, lambda p: True, cur, op["n"] + 2):
                ctx.step()
                cur, asg = q, hist.read_asg(ctx, q, w)
        ctx.check(hist.read_asg(ctx, keep, w) == kept, "changed", "an earlier plan changed")
        ctx.state([w.edges, asg])
    ctx.count("final-draws", finals)
    ctx.nontrivial = finals > 0 or bool(ctx.faults)


def simpler(plan):
    for n in range(3, plan["world"]["n"]):
        yield dict(plan, world=dict(plan["world"], n=n))
    for f, v in (("shape", "path"), ("labels", "int"), ("plabels", "int"), ("pops", "unit"), ("weight", False), ("k", 2)):
        if plan["world"][f] != v:
            yield dict(plan, world=dict(plan["world"], **{f: v}))
    for j, op in enumerate(plan["ops"]):
        for f, v in (("style", "plain"), ("repeat", False), ("tgt", "ideal"), ("fault", None), ("place", "free"), ("bal", "memo"), ("n", 1), ("kind", "one")):
            if op[f] != v:
                yield dict(plan, ops=plan["ops"][:j] + [dict(op, **{f: v})] + plan["ops"][j + 1:])
