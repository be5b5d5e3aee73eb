"""Random worlds: graphs, data and plans, built from a small JSON spec, with our own adjacency structure."""
import math
from .seam import RealRandom, SIM

SHAPES = ["grid", "grid", "grid", "diag", "path", "cycle", "star", "tree", "planar", "planar", "barbell",
          "complete", "ladder", "hub"]
ISLANDS = SHAPES + ["islands"]           # maps that are not connected, where the property says something about them


def spec(rng, nmin=4, nmax=16, kmin=2, kmax=4, shapes=None, pops=None, labels=None, plabels=None, wide=0, one=0):
    """wide: share of worlds far larger than nmax, with many districts; one: share with a single district."""
    x = rng.random()
    if x < wide:
        nmin, nmax, kmax = 30, 110, 14
        shapes = [s for s in shapes or SHAPES if s not in ("barbell", "complete")]
    elif x < wide + one:
        kmin = kmax = 1
    n = rng.randint(nmin, nmax)
    return dict(shape=rng.choice(shapes or SHAPES), n=n, k=rng.randint(kmin, max(kmin, min(kmax, n))),
                labels=rng.choice(labels or ["int", "shuf", "str", "tuple", "neg", "float", "np"]),
                plabels=rng.choice(plabels or ["int", "int", "one", "str", "str0", "neg", "big", "alike", "np", "float"]),
                pops=rng.choice(pops or ["unit", "small", "skew", "quarter", "zero", "census"]),
                weight=rng.random() < .25, seed=rng.randrange(1 << 30))


def vast(rng):
    """Long maps, of more nodes than the interpreter nests calls."""
    return dict(shape=rng.choice(["path", "cycle", "ladder"]), n=rng.randint(2300, 2600), k=rng.randint(1, 2), labels=rng.choice(["int", "shuf", "str"]),
                plabels=rng.choice(["int", "str"]), pops=rng.choice(["unit", "small"]), weight=False, seed=rng.randrange(1 << 30))


class World:
    np = False
    """Everything the reference needs, in plain Python structures."""

    def __init__(self, sp):
        self.spec = sp
        r = RealRandom(sp["seed"])
        self._shape(sp["shape"], sp["n"], r, sp)
        SIM.scale = max(SIM.scale, (self.n / 20) ** 2)       # random walks need draws quadratic in the size
        self._labels(sp["labels"], r)
        self._data(sp, r)
        k = min(sp["k"], len(self.nodes))
        self.parts = self._plabels(sp["plabels"], k, r)
        self.start = region_growth(self, self.parts, r)
        if sp["shape"] == "hub" and 2 <= k == sp["k"] and len(self.nodes) - 1 - (k - 2) >= 3 and r.random() < .5:
            m = len(self.nodes) - 1 - (k - 2)            # the ring is one district, the hub another, each pendant its own
            self.start = {v: self.parts[0] for v in self.nodes}
            for j in range(k - 1):
                self.start[self._L[m + j]] = self.parts[1 + j]

    # -- structure
    def _shape(self, shape, n, r, sp):
        E = set()
        if shape in ("grid", "diag", "ladder"):
            w = 2 if shape == "ladder" else max(2, int(round(math.sqrt(n))))
            hgt = max(2, n // w)
            pts = [(i, j) for i in range(w) for j in range(hgt)]
            idx = {p: q for q, p in enumerate(pts)}
            for (i, j) in pts:
                for d in ((1, 0), (0, 1)) + (((1, 1), (1, -1)) if shape == "diag" else ()):
                    t = (i + d[0], j + d[1])
                    if t in idx:
                        E.add((idx[(i, j)], idx[t]))
            n = len(pts)
            self.coords = pts
        elif shape == "path":
            E = {(i, i + 1) for i in range(n - 1)}
        elif shape == "cycle":
            n = max(n, 3)
            E = {(i, (i + 1) % n) for i in range(n)}
        elif shape == "hub" and n - 1 - max(0, sp["k"] - 2) >= 3:      # a ring, a hub inside it with a few spokes, pendants on the hub
            m = n - 1 - max(0, sp["k"] - 2)
            E = {(i, (i + 1) % m) for i in range(m)} | {(i, m) for i in r.sample(range(m), r.randint(1, min(m, 5)))}
            E |= {(m, i) for i in range(m + 1, n)}
        elif shape == "star":
            E = {(0, i) for i in range(1, n)}
        elif shape == "tree":
            E = {(r.randrange(i), i) for i in range(1, n)}
        elif shape == "complete":
            n = min(n, 7)
            E = {(i, j) for i in range(n) for j in range(i)}
        elif shape == "barbell":
            a = n // 2
            E = {(i, j) for i in range(a) for j in range(i) if r.random() < .7 or j == i - 1}
            E |= {(i, j) for i in range(a, n) for j in range(a, i) if r.random() < .7 or j == i - 1}
            E.add((a - 1, a) if a else (0, 1))
        else:                                            # planar-ish: random tree plus local chords
            E = {(r.randrange(max(0, i - 4), i), i) for i in range(1, n)}
            if shape == "islands" and sp["k"] > 1 and n > 1:      # pieces without any connection, every district inside one of them
                sea = set(r.sample(range(1, n), min(n - 1, sp["k"] - 1, r.randint(1, 2))))
                low = lambda i: max([0] + [x for x in sea if x <= i])
                E = {(r.randrange(max(low(i), i - 4), i), i) for i in range(1, n) if i not in sea}
                for _ in range(n):
                    i = r.randrange(n)
                    j = max(low(i), i - r.randint(1, 4))
                    if i != j:
                        E.add((i, j))
                self.n = n
                self._E = sorted({(min(a, b), max(a, b)) for a, b in E})
                return
            for _ in range(n):
                i = r.randrange(n)
                j = min(n - 1, max(0, i + r.randint(-4, 4)))
                if i != j:
                    E.add((i, j))
        self.n = n
        self._E = sorted({(min(a, b), max(a, b)) for a, b in E})

    def _labels(self, kind, r):
        n = self.n
        if kind == "int":
            L = list(range(n))
        elif kind == "shuf":
            L = r.sample(range(1, 10 * n + 1), n)
        elif kind == "neg":
            L = [i - n // 2 for i in range(n)]
        elif kind == "np":
            import numpy
            L = [numpy.int64(i) for i in range(n)]
        elif kind == "float":                            # numbers of two types are one kind of label
            L = [i / 2 if i % 2 else i // 2 for i in range(n)]
        elif kind == "str":
            L = ["n%02d" % i for i in range(n)]
            r.shuffle(L)
        else:
            L = [(i % 4, i // 4) for i in range(n)]
        order = list(range(n))
        if kind != "int":
            r.shuffle(order)
        self.nodes = [L[i] for i in order]               # insertion order
        self._L = L
        ed = [(L[a], L[b]) for a, b in self._E]
        r.shuffle(ed)
        self.edges = [e if r.random() < .5 else (e[1], e[0]) for e in ed]
        self.adj = {v: [] for v in self.nodes}
        for a, b in self.edges:
            self.adj[a].append(b)
            self.adj[b].append(a)

    def _plabels(self, kind, k, r):
        alike = r.sample(r.choice((["1", "12", "11", "2"], ["1", "112", "11", "12"], ["1", "121", "11", "21"])), 4)      # names easily taken for one another
        alike = (alike + [x for x in ["21", "112", "1 2", "01", "1.0"] if x not in alike])[:k]
        if kind == "np":                                 # as a data frame gives them
            import numpy
            return [numpy.int64(i + 1) for i in range(k)]
        return {"float": [float(i) for i in range(k)], "alike": alike + ["1%03d" % i for i in range(k - len(alike))], "int": list(range(k)), "one": list(range(1, k + 1)), "str": ["D%d" % i for i in range(k)],
                "str0": [""] + ["p%d" % i for i in range(1, k)], "neg": [i * 3 - 4 for i in range(k)], "big": [4801 + 7 * i for i in range(k)]}[kind]

    # -- data (integers and dyadic fractions: sums are exact in any order)
    def _data(self, sp, r):
        pk = sp["pops"]

        def pop():
            if pk == "unit":
                return 1
            if pk == "small":
                return r.randint(1, 5)
            if pk == "skew":
                return r.choice((1, 1, 2, 3, 20))
            if pk == "quarter":
                return r.randint(1, 20) / 4
            if pk == "census":
                return r.choice((r.randint(300, 9000), r.randint(300, 9000), 100000 + r.randrange(10 ** 6), 0))
            return r.choice((0, 1, 2, 3))
        self.attr = {}
        big = r.choice((3, 4, 5))
        scale = r.choice(("quarter", "quarter", "fine", "metres"))

        def size():
            x = r.randint(1, 12) / 4
            return x + r.randrange(1 << 20) / (1 << 30) if scale == "fine" else x * (1 << 14) + r.randrange(1 << 10) / (1 << 10) if scale == "metres" else x
        for q, v in enumerate(self.nodes):
            b = r.random() < .5
            a = dict(pop=pop(), pop2=r.randint(0, 9), area=size(), boundary_node=b,
                     nanpop=r.choice((1, 2, 3.5, float("nan"))), dem=r.randint(0, 6), rep=r.randint(0, 6),
                     grn=r.choice((0, 0, 1)), county="c%d" % r.randrange(big), loc=r.randrange(big),
                     muni=r.choice(("m0", "m1", "m2")))
            if b:
                a["boundary_perim"] = size()
            self.attr[v] = a
        if pk == "census" and not any(a["pop"] for a in self.attr.values()):
            self.attr[self.nodes[0]]["pop"] = 4000
        self.np = r.random() < .12                       # columns as a data frame gives them
        self.eattr = {}
        for e in self.edges:
            d = dict(shared_perim=size())
            if sp.get("weight"):
                d["weight"] = r.randint(2, 5)
            self.eattr[frozenset(e)] = d

    # -- builders
    def nx(self):
        import networkx, numpy
        g = networkx.Graph()
        for v in self.nodes:
            g.add_node(v, **self.attr[v])
            if self.np:
                for c in ("pop", "pop2", "dem", "rep", "nanpop"):
                    g.nodes[v][c] = (numpy.int64 if isinstance(self.attr[v][c], int) else numpy.float64)(self.attr[v][c])
        for a, b in self.edges:
            g.add_edge(a, b, **self.eattr[frozenset((a, b))])
        return g

    def graph(self):
        from gerrychain import Graph
        return Graph.from_networkx(self.nx())

    def total(self, col="pop"):
        return sum(self.attr[v][col] for v in self.nodes)

    # -- reference helpers
    def connected(self, nodes):
        nodes = set(nodes)
        if not nodes:
            return False
        seen, todo = set(), [next(iter(nodes))]
        seen.add(todo[0])
        while todo:
            u = todo.pop()
            for w in self.adj[u]:
                if w in nodes and w not in seen:
                    seen.add(w)
                    todo.append(w)
        return len(seen) == len(nodes)

    def cut(self, asg):
        return {frozenset(e) for e in self.edges if asg[e[0]] != asg[e[1]]}

    def level(self, asg, parts=None):
        d = {p: set() for p in (self.parts if parts is None else parts)}
        for v, p in asg.items():
            d.setdefault(p, set()).add(v)
        return d

    def contiguous(self, asg, parts=None):
        return all(self.connected(s) for s in self.level(asg, parts).values())

    def adjacent_pairs(self, asg):
        return {frozenset((asg[a], asg[b])) for a, b in self.edges if asg[a] != asg[b]}

    def flips_of(self, asg):
        """All (node, district) one-flip moves along the boundary."""
        return {(a, asg[b]) for e in self.edges for a, b in (e, e[::-1]) if asg[a] != asg[b]}


class GridWorld(World):
    """What Grid((m, n)) documents: unit squares, with their sides as perimeters; diagonals share nothing."""

    def __init__(self, sp, diagonals):
        self.spec = sp
        r = RealRandom(sp["seed"])
        m = self.m = 2 + sp["n"] % 3
        n = self.n2 = max(2, sp["n"] // 3)
        self.diagonals = diagonals
        self.nodes = [(i, j) for i in range(m) for j in range(n)]
        self.n = len(self.nodes)
        self.attr = {}
        for i, j in self.nodes:
            side = (i == 0) + (i == m - 1) + (j == 0) + (j == n - 1)
            self.attr[i, j] = dict(area=1, population=1, pop=1, boundary_node=side > 0)
            if side:
                self.attr[i, j]["boundary_perim"] = side
        self.edges, self.eattr = [], {}
        for i, j in self.nodes:
            for d in ((1, 0), (0, 1)) + (((1, 1), (1, -1)) if diagonals else ()):
                t = (i + d[0], j + d[1])
                if t in self.attr:
                    self.edges.append(((i, j), t))
                    self.eattr[frozenset(((i, j), t))] = dict(shared_perim=int(0 in d))
        self.adj = {v: [] for v in self.nodes}
        for a, b in self.edges:
            self.adj[a].append(b)
            self.adj[b].append(a)
        self.parts = self._plabels(sp["plabels"], min(sp["k"], self.n), r)
        self.start = region_growth(self, self.parts, r)


def region_growth(w, parts, r):
    """A contiguous plan using every part (k <= n)."""
    nodes = list(w.nodes)
    seeds = r.sample(nodes, len(parts))
    if w.spec["shape"] == "islands":                     # one district at least on every island
        left, first = set(nodes), []
        for v in nodes:
            if v in left:
                first.append(v)
                todo = [v]
                while todo:
                    u = todo.pop()
                    if u in left:
                        left.discard(u)
                        todo += w.adj[u]
        if len(first) > len(parts):                      # more islands than districts: some district lies on several
            asg = {v: parts[0] for v in nodes}
            asg.update(zip(r.sample(nodes, len(parts)), parts))
            return asg
        seeds = first + r.sample([v for v in nodes if v not in first], len(parts) - len(first))
    asg = dict(zip(seeds, parts))
    if len(nodes) > 500:
        rank = {v: q for q, v in enumerate(w._L)}
        half = len(nodes) // 2
        spot = {v: q % half if w.spec["shape"] == "ladder" else q for v, q in rank.items()}
        step = max(spot.values()) // len(parts) + 1
        return {v: parts[spot[v] // step] for v in nodes}
    while len(asg) < len(nodes):
        front = [(u, asg[v]) for v in nodes if v in asg for u in w.adj[v] if u not in asg]
        u, p = r.choice(front)
        asg[u] = p
    return {v: asg[v] for v in nodes}


def random_assignment(w, parts, r):
    return {v: r.choice(parts) for v in w.nodes}
