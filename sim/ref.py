"""Independent, from-scratch reference for every statistic, on plain Python structures."""
import math
from fractions import Fraction


def tally(w, asg, parts, get):
    """get(v) -> value or NaN (ignored)."""
    t = {p: 0 for p in parts}
    for v, p in asg.items():
        x = get(v)
        if not (isinstance(x, float) and math.isnan(x)):
            t[p] += x
    return t


def cut_edges(w, asg):
    return {tuple(sorted(e)) for e in w.edges if asg[e[0]] != asg[e[1]]}


def cut_by_part(w, asg, parts):
    d = {p: set() for p in parts}
    for e in cut_edges(w, asg):
        d[asg[e[0]]].add(e)
        d[asg[e[1]]].add(e)
    return d


def boundary(w):
    return {v for v in w.nodes if w.attr[v]["boundary_node"]}


def ext_set(w, asg, parts):
    d = {p: set() for p in parts}
    for v in boundary(w):
        d[asg[v]].add(v)
    return d


def ext_perim(w, asg, parts):
    d = {p: 0 for p in parts}
    for v in boundary(w):
        d[asg[v]] += w.attr[v]["boundary_perim"]
    return d


def int_perim(w, asg, parts):
    d = {p: 0 for p in parts}
    for a, b in w.edges:
        if asg[a] != asg[b]:
            s = w.eattr[frozenset((a, b))]["shared_perim"]
            d[asg[a]] += s
            d[asg[b]] += s
    return d


def perim(w, asg, parts):
    x, i = ext_perim(w, asg, parts), int_perim(w, asg, parts)
    return {p: x[p] + i[p] for p in parts}


def polsby(w, asg, parts):
    a, p = tally(w, asg, parts, lambda v: w.attr[v]["area"]), perim(w, asg, parts)
    return {q: (4 * math.pi * a[q] / p[q] ** 2 if p[q] else math.nan) for q in parts}


def regions_split(w, asg, col):
    """Number of regions with a cut edge inside them."""
    return len({w.attr[a][col] for a, b in w.edges if asg[a] != asg[b] and w.attr[a][col] == w.attr[b][col]})


def county_info(w, asg, parent, col):
    """county -> (status, nodes, districts); parent: assignment of the live parent plan or None."""
    out = {}
    for c in {w.attr[v][col] for v in w.nodes}:
        ns = [v for v in w.nodes if w.attr[v][col] == c]
        seen = {asg[v] for v in ns}
        if len(seen) <= 1:
            st = "NOT_SPLIT"
        elif parent is not None and len({parent[v] for v in ns}) <= 1:
            st = "NEW_SPLIT"
        else:
            st = "OLD_SPLIT"
        out[c] = (st, set(ns), seen)
    return out


def spanning_trees(w, nodes):
    """Exact number of spanning trees of the induced subgraph (0 if disconnected, None if empty)."""
    ns = sorted(nodes)
    if not ns:
        return None
    pos = {v: i for i, v in enumerate(ns)}
    m = len(ns) - 1
    L = [[Fraction(0)] * len(ns) for _ in ns]
    for a, b in w.edges:
        if a in pos and b in pos:
            i, j = pos[a], pos[b]
            L[i][i] += 1
            L[j][j] += 1
            L[i][j] -= 1
            L[j][i] -= 1
    M = [row[:m] for row in L[:m]]
    det = Fraction(1)
    for c in range(m):
        piv = next((r for r in range(c, m) if M[r][c] != 0), None)
        if piv is None:
            return 0
        if piv != c:
            M[c], M[piv] = M[piv], M[c]
            det = -det
        det *= M[c][c]
        for r in range(c + 1, m):
            f = M[r][c] / M[c][c]
            if f:
                for q in range(c, m):
                    M[r][q] -= f * M[c][q]
    return int(det)


def components(w, nodes):
    nodes, n = set(nodes), 0
    while nodes:
        n += 1
        todo = [nodes.pop()]
        while todo:
            u = todo.pop()
            for x in w.adj[u]:
                if x in nodes:
                    nodes.discard(x)
                    todo.append(x)
    return n


def locality(w, asg, parts, col, popcol, alpha):
    locs = {w.attr[v][col] for v in w.nodes}
    cells = {}
    for v in w.nodes:
        cells.setdefault((w.attr[v][col], asg[v]), []).append(v)
    N = len(w.nodes)
    cnt = {c: sum(1 for v in w.nodes if w.attr[v][col] == c) for c in locs}
    shannon = sum(cnt[c] / N * sum(-(len(x) / cnt[c]) * math.log(len(x) / cnt[c])
                                   for (cc, _), x in cells.items() if cc == c) for c in locs)
    power = sum(N / cnt[c] * (sum((len(x) / cnt[c]) ** (1 - alpha) for (cc, _), x in cells.items() if cc == c) - 1)
                for c in locs)
    pop = {k: sum(w.attr[v][popcol] for v in x) for k, x in cells.items()}
    pd = {p: sum(z for (c, q), z in pop.items() if q == p) for p in parts}
    pc = {c: sum(z for (d, q), z in pop.items() if d == c) for c in locs}
    sym = None
    if all(pd.values()) and all(pc.values()):
        sym = sum(pd[q] * math.sqrt(z / pd[q]) + pc[c] * math.sqrt(z / pc[c]) for (c, q), z in pop.items())
    return dict(num_parts=len(cells), num_pieces=sum(components(w, x) for x in cells.values()),
                naked_boundary=sum(1 for a, b in w.edges if asg[a] != asg[b] and w.attr[a][col] == w.attr[b][col]),
                shannon_entropy=shannon, power_entropy=power, symmetric_entropy=sym,
                num_split_localities=sum(1 for c in locs if len([1 for (d, _) in cells if d == c]) > 1))
