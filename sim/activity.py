"""A menu of library activities that start from one plan; used wherever 'whatever else runs' must not matter.

Each runs real library code with its own stream; `hook(where)` is called inside every callback, so that the
caller can nest other work there or raise."""
from .seam import RealRandom, SIM, Stream
from . import hist


def partition_kw(w):
    return dict(pop_col="pop")


def tolerant(w, asg, parts):
    """A tolerance wide enough that the recombination of any pair is possible by population."""
    return 0.9


def run(kind, w, plan, parts, r, hook=lambda where: None, steps=6, on_plan=lambda p: None):
    """Returns a list of emitted plans.  Only legitimate uses: recombination on contiguous plans etc."""
    from gerrychain import MarkovChain
    from gerrychain.proposals import recom, reversible_recom, spectral_recom, ReCom
    from gerrychain.constraints import contiguous, single_flip_contiguous, no_vanishing_districts
    from gerrychain.accept import always_accept, cut_edge_accept
    from gerrychain.optimization import SingleMetricOptimizer, Gingleator
    from gerrychain.meta.diversity import collect_diversity_stats
    from gerrychain.metagraph import all_valid_states_one_flip_away, all_valid_flips, metagraph_degree
    from gerrychain.tree import (bipartition_tree, bipartition_tree_random, uniform_spanning_tree, random_spanning_tree,
                                 recursive_tree_part, ReselectException, find_balanced_edge_cuts_contraction)
    from gerrychain.proposals.tree_proposals import MetagraphError, ReversibilityError
    from functools import partial
    asg = {v: plan.assignment[v] for v in w.nodes}
    contig = w.contiguous(asg, parts) and set(asg.values()) == set(parts)
    tot = sum(w.attr[v]["pop"] for v in w.nodes)
    target = tot / len(parts)
    out = []
    own = lambda p: p.flip(hist.flips_for(r.choice(hist.MOVES), w, {v: p.assignment[v] for v in w.nodes}, parts, r))
    L = hist.lib_proposals()
    avail = sorted(n for n in L if n != "every" or "cut_edges_by_part" in plan.updaters)
    if "cut_edges" not in plan.updaters:
        avail = ["any"]

    def flipper(name):
        f = L[name]

        def proposal(p):
            hook("proposal")
            if "cut_edges" in p.updaters and not p["cut_edges"]:
                return own(p)
            return f(p)
        return proposal

    def emit(p):
        out.append(p)
        on_plan(p)

    def con(p):
        hook("constraint")
        return True

    def acc(p):
        hook("accept")
        return r.random() < .75

    if kind == "flips":
        for p in MarkovChain(flipper(r.choice(avail)), con, acc, plan, steps):
            emit(p)
    elif kind == "own":
        def proposal(p):
            hook("proposal")
            return own(p)
        for p in MarkovChain(proposal, [con], acc, plan, steps):
            emit(p)
    elif kind == "contig":
        if not contig or "cut_edges" not in plan.updaters:
            return out
        n = [0]

        def few(p):                                     # give up after a while: all flips may be illegal
            hook("constraint")
            n[0] += 1
            if n[0] > 200:
                raise StopHere()
            return True
        try:
            for p in MarkovChain(flipper("random"), [few, contiguous if plan.parent is not None else r.choice([contiguous, single_flip_contiguous])], cut_edge_accept, plan, steps):
                emit(p)
        except StopHere:
            pass
    elif kind in ("recom", "recom2", "reversible", "spectral"):
        if not contig or target <= 0 or "cut_edges" not in plan.updaters:
            return out
        eps = .9
        if kind == "recom":
            tree = r.choice([uniform_spanning_tree, random_spanning_tree])
            meth = partial(bipartition_tree, max_attempts=6, allow_pair_reselection=r.random() < .5, spanning_tree_fn=tree)
            base = partial(recom, pop_col="pop", pop_target=target, epsilon=eps, method=meth)
        elif kind == "recom2":
            base = partial(recom, pop_col="pop", pop_target=target, epsilon=eps,
                           method=partial(bipartition_tree_random, max_attempts=6))
        elif kind == "reversible":
            base = partial(reversible_recom, pop_col="pop", pop_target=target, epsilon=eps, M=len(w.nodes))
        else:
            base = partial(spectral_recom, weight_type=r.choice([None, "random"]))

        def proposal(p):
            hook("proposal")
            if not p["cut_edges"]:
                raise StopHere()
            return base(p)
        try:
            for p in MarkovChain(proposal, con, acc, plan, steps):
                emit(p)
        except (StopHere, MetagraphError, RuntimeError, ReversibilityError):
            pass
    elif kind in ("bursts", "tilted", "anneal", "varbursts"):
        def score(p):
            hook("score")
            return len(p.parts[parts[0]]) if "cut_edges" not in p.updaters else len(p["cut_edges"])
        o = SingleMetricOptimizer(flipper(r.choice(avail)), con, plan, score, maximize=r.random() < .5)
        g = {"bursts": lambda: o.short_bursts(3, max(1, steps // 3)),
             "varbursts": lambda: o.variable_length_short_bursts(steps, 1),
             "tilted": lambda: o.tilted_run(steps, .3),
             "anneal": lambda: o.simulated_annealing(steps, o.jumpcycle_beta_function(2, 2), .5)}[kind]()
        for p in g:
            emit(p)
    elif kind == "diversity":
        if "cut_edges" not in plan.updaters:
            return out
        for p, st in collect_diversity_stats(MarkovChain(flipper(r.choice(avail)), con, acc, plan, steps)):
            emit(p)
    elif kind == "enumerate":
        if "cut_edges" not in plan.updaters:
            return out
        k = r.randint(1, 12)
        for j, p in enumerate(all_valid_states_one_flip_away(plan, [con])):
            emit(p)
            if j > k:
                break
        metagraph_degree(plan, con)
    elif kind == "seedplan":
        if target <= 0 or len(parts) < 2:
            return out
        try:
            recursive_tree_part(r.choice([plan.graph.graph, w.graph()]), parts, target, "pop", .9,
                                method=partial(bipartition_tree, max_attempts=5))
        except (RuntimeError, Exception) as e:
            if isinstance(e, (RuntimeError,)) or type(e).__name__ in ("BalanceError", "PopulationBalanceError"):
                pass
            else:
                raise
    elif kind == "tree":
        uniform_spanning_tree(plan.graph)
        for p in parts:
            if len(plan.parts[p]) > 1 and w.connected(plan.parts[p]):
                uniform_spanning_tree(plan.subgraphs[p])
                random_spanning_tree(plan.subgraphs[p].graph)
    return out


class StopHere(Exception):
    pass


KINDS = ["flips", "flips", "own", "own", "contig", "recom", "recom2", "reversible", "spectral", "bursts", "tilted", "anneal",
         "varbursts", "diversity", "enumerate", "seedplan", "tree"]
