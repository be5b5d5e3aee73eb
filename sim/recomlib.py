"""Shared by the recombination scenarios: configurations of the real library, and the legality oracle."""
from functools import partial
from .seam import RealRandom, SIM, Stream, ONE_MINUS
from . import hist

DYADIC = [.125, .25, .5, .75]


class Cutoff(BaseException):
    """An interrupt delivered inside a draw."""


class CutStream(Stream):
    """A stream that delivers an interrupt at the n-th draw."""

    def __init__(self, seed, style, at):
        super().__init__(seed, style)
        self.at = at

    def _tick(self):
        super()._tick()
        if self.n == self.at:
            raise Cutoff()


def config(rng, reselect=None):
    """A JSON description of a bipartition configuration."""
    return dict(method=rng.choice(["tree", "tree", "tree", "random", "default"]), st=rng.choice(["random", "uniform", "own"]),
                bal=rng.choice(["memo", "contract", "flaky", "memo"]), repeats=rng.randint(1, 4), attempts=rng.choice([1, 3, 10, 40]),
                resel=rng.random() < .5 if reselect is None else reselect, choice=rng.choice(["lib", "lib", "first", "last", "mid"]),
                surcharge=rng.choice([None, None, {}, {"county": 1.0}, {"county": .5, "muni": .25}, {"county": 2, "muni": 2, "loc": 1},
                                      {"county": 1, "muni": 1, "loc": 1, "pop2": 1}]))


def rev_adj_tree(g):
    """A user's own spanning tree function: depth-first from an arbitrary node."""
    import networkx, random
    nodes = list(g.nodes)
    root = random.choice(nodes)
    t = networkx.Graph()
    t.add_node(root)
    todo, seen = [root], {root}
    while todo:
        u = todo.pop(random.randrange(len(todo)))
        for v in g.neighbors(u):
            if v not in seen:
                seen.add(v)
                t.add_edge(u, v)
                todo.append(v)
    return t


def build(cfg, on_balance=lambda: None, on_tree=lambda: None):
    """The bipartition method the configuration describes."""
    import random
    from gerrychain import tree as T
    base_st = {"random": T.random_spanning_tree, "uniform": T.uniform_spanning_tree, "own": rev_adj_tree}[cfg["st"]]
    if cfg["st"] == "random":
        def st(graph, region_surcharge=None):
            on_tree()
            return base_st(graph, region_surcharge)
    else:
        def st(graph):
            on_tree()
            return base_st(graph)
    bal0 = T.find_balanced_edge_cuts_contraction if cfg["bal"] == "contract" else T.find_balanced_edge_cuts_memoization

    def bal(h, one_sided_cut=False, choice=random.choice):
        on_balance()
        if cfg["bal"] == "flaky" and random.random() < .3:
            return []
        return bal0(h, one_sided_cut=one_sided_cut, choice=choice)
    ch = {"lib": random.choice, "first": lambda s: s[0], "last": lambda s: s[-1], "mid": lambda s: s[len(s) // 2]}[cfg["choice"]]
    if ch is not random.choice and cfg["st"] == "uniform":
        pass                                           # (the tree draws stay the library's)
    if cfg["method"] == "default":
        return partial(T.bipartition_tree, max_attempts=cfg["attempts"], allow_pair_reselection=cfg["resel"])
    if cfg["method"] == "random":
        return partial(T.bipartition_tree_random, spanning_tree_fn=st, balance_edge_fn=bal, choice=ch, max_attempts=cfg["attempts"])
    return partial(T.bipartition_tree, spanning_tree_fn=st, balance_edge_fn=bal, choice=ch, max_attempts=cfg["attempts"],
                   warn_attempts=2, allow_pair_reselection=cfg["resel"])


def target_for(w, k, r):
    return w.total() / k


def legal(ctx, w, old, new, target, eps, parts, tag=""):
    """old, new: assignments.  Returns the pair, or None if nothing changed."""
    changed = {v for v in w.nodes if old[v] != new[v]}
    pair = {old[v] for v in changed} | {new[v] for v in changed}
    ctx.check(len(pair) in (0, 2), "spread", lambda: "districts %r changed%s" % (sorted(pair, key=repr), tag))
    lv = w.level(new, parts)
    if changed:
        ctx.check(frozenset(pair) in w.adjacent_pairs(old), "adjacent", lambda: "districts %r were not adjacent" % (pair,))
    return frozenset(pair) if changed else None


def balanced(w, nodes, target, eps, slack=1e-9):
    p = sum(w.attr[v]["pop"] for v in nodes)
    return abs(p - target) <= eps * target * (1 + slack) + slack
