"""What a graph answers: used to show that nothing alters the user's graph."""
from .core import canon

SCRATCH = {"random_weight"}


def fp(g):
    """Complete answer set of a networkx-like graph (Graph or FrozenGraph), as comparable text."""
    und = g.graph if type(g).__name__ == "FrozenGraph" else g
    return dict(
        order=[repr(v) for v in und.nodes],
        nodes={repr(v): canon(dict(und.nodes[v])) for v in und.nodes},
        nkeys={repr(v): list(und.nodes[v]) for v in und.nodes},
        adj={repr(v): [repr(u) for u in und.adj[v]] for v in und.nodes},
        edges={canon(frozenset((a, b))): canon({k: x for k, x in d.items() if k not in SCRATCH}) for a, b, d in und.edges(data=True)},
        graph=canon(dict(und.graph)))


def query(ctx, g, w, tag=""):
    """The graph's public queries against the world it was built from."""
    nodes, E = set(w.nodes), {frozenset(e) for e in w.edges}
    def same(got, want, what):
        if got != want:
            ctx.fail("query:" + what, "%s%s: %r, expected %r" % (what, tag, got, want))
    same(set(g), nodes, "iteration")
    same(len(g), len(nodes), "len")
    same(set(g.nodes), nodes, "nodes")
    same(set(g.node_indices), nodes, "node_indices")
    same({frozenset(e) for e in g.edges}, E, "edges")
    same({frozenset(e) for e in g.edge_indices}, E, "edge_indices")
    for v in w.nodes:
        same(sorted(map(repr, g.neighbors(v))), sorted(map(repr, w.adj[v])), "neighbors")
        same(set(g[v]), set(w.adj[v]), "item")
        same(g.degree(v), len(w.adj[v]), "degree")
        for c, x in w.attr[v].items():
            for got in (g.lookup(v, c), g.nodes[v][c]):
                if got != x and not (x != x and got != got):
                    ctx.fail("query:lookup", "%r of %r is %r, expected %r%s" % (c, v, got, x, tag))
    for a, b in w.edges:
        for c, x in w.eattr[frozenset((a, b))].items():
            same(g.edges[a, b][c], x, "edge data")


def compare(ctx, old, new, tag=""):
    for k in old:
        if old[k] != new[k]:
            if isinstance(old[k], dict):
                d = [x for x in sorted(set(old[k]) | set(new[k])) if old[k].get(x) != new[k].get(x)][:3]
                msg = [(x, old[k].get(x), new[k].get(x)) for x in d]
            else:
                msg = (old[k], new[k])
            ctx.fail("graph:" + k, "the graph's %s changed%s: %r" % (k, tag, msg))
