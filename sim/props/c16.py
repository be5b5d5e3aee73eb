"""C16: saving and loading graphs and plan files on a faulty disk."""
import json, math, os, shutil
from ..seam import RealRandom, SIM, Stream
from .. import world, hist, stats, faultfs
from ..core import seed_of, canon

RUNS = {"quick": 5500, "thorough": 100000}
SHRINK = ["ops"]
RULE = ("one run = one graph with data of every kind (from tables and set directly, with geometries) and a sequence of saves and loads "
        "of it, its frozen form and plan files through a simulated disk (real Python buffering over raw files) that fails to open, runs "
        "full, fails, tears or short-writes at a chosen byte, fails on close, crashes the process at a byte, truncates or garbles files, "
        "or short-reads; non-trivial if a fault fired")
ASSUMPTIONS = ["data are numbers, text, booleans, missing values, and lists and string-keyed dictionaries of these",
               "no attribute is called 'id' (a known finding); node labels are integers, text or tuples of these, distinct once saved", "a bit flip that leaves well-formed JSON is not detectable and not injected",
               "after a failed save the file may hold nothing, a prefix, the old or the new content"]
STUB = ["the disk: raw reads and writes in a scratch directory behind Python's own io buffering"]
FAULTS = [None, None, None, "open", "enospc", "eio", "close", "crash", "short-write", "enospc", "crash"]


def gen(rng, tier, i):
    ops = [[rng.choice(["save"] * 5 + ["load"] * 3 + ["truncate", "truncate", "garble", "districtr", "districtr", "data", "data"]), rng.randrange(1 << 30)]
           for _ in range(rng.randint(3, 14))]
    return dict(world=world.spec(rng, 2, rng.choice([6, 12, 30]), 1, 4, shapes=world.ISLANDS, labels=["int", "shuf", "str", "neg", "tuple"], wide=.03), ops=ops, geo=rng.random() < .4, island=rng.random() < .3)


NAMES = ["key", "weight", "", "nodes", "adjacency", "directed", "multigraph", "graph", "type", "coordinates", "name", "geometry", "ID", "Id", " id", "bipartite"]


class Shape:
    """stands for a geometry object"""

    def __init__(self, k):
        self.k = k

    @property
    def __geo_interface__(self):
        return {"type": "Point", "coordinates": (self.k, -self.k)}


def value(r, depth=0):
    import numpy as np
    c = r.randrange(16 if depth < 2 else 13)
    if c == 0:
        return r.choice([0, 1, -7, 10 ** 12, 2 ** 70, 2 ** 53 + 1, -2 ** 63 - 1, 10 ** 18 + 7, 10 ** 40 + 1])
    if c == 1:
        return r.choice([0.0, .1, -2.5, 1e300, 1 / 3, 5e-324, 1e16 + 2, 123456789.0123456, 1.0, -1e22])
    if c == 2:
        return r.choice([True, False])
    if c == 3:
        return None
    if c == 4:
        return r.choice(["", "x", "é 漢字", 'quote"\\', "null", "line\nbreak", "\u2028", "\x00", "\ud800", "NaN", "1", " x ", "\U0001f5fa", "y" * 5000])
    if c == 5:
        return float("nan")
    if c == 6:
        return np.int64(r.randint(-9, 10 ** 9))
    if c == 7:
        return r.choice([np.int32(5), np.uint8(200), np.int16(-3), np.uint64(2 ** 63 + 1), np.int64(2 ** 62 + 1)])
    if c == 8:
        return np.float64(r.random())
    if c == 9:
        return r.choice([np.float32(.1), np.float32('nan'), np.float16('nan'), np.float32('inf'), np.float16(-2), np.float32(0)])
    if c == 10:
        return np.bool_(r.random() < .5)
    if c == 11:
        import pandas
        return pandas.NA
    if c == 12:
        return r.choice([float("inf"), -float("inf"), np.float64("nan"), -0.0])
    if c == 13:
        return [value(r, depth + 1) for _ in range(r.randint(0, 3))]
    return {"k%d" % j: value(r, depth + 1) for j in range(r.randint(0, 3))}


def plain(x):
    """The value as it must come back."""
    import numpy as np
    if type(x).__name__ == "NAType":
        return None
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def same(a, b):
    if isinstance(b, float):
        return type(a) is float and (a == b or (a != a and b != b))
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in b)
    return type(a) is type(b) and a == b


def snapshot(g):
    """Everything in memory, with identities of values kept by type and repr."""
    und = g.graph if type(g).__name__ == "FrozenGraph" else g
    return ([(repr(v), [(k, type(x).__name__, canon(x)) for k, x in und.nodes[v].items()]) for v in und.nodes],
            [(repr(v), [(repr(u), [(k, type(x).__name__, canon(x)) for k, x in d.items()]) for u, d in und.adj[v].items()]) for v in und.nodes],
            [(k, canon(x)) for k, x in und.graph.items()])


def execute(plan, ctx):
    import networkx, pandas, numpy as np
    from gerrychain import Graph, Partition
    from gerrychain.graph import FrozenGraph
    w = world.World(plan["world"])
    r0 = RealRandom(plan["seed"])
    g = Graph()
    nodes = list(w.nodes)
    if plan["island"]:
        nodes.insert(r0.randrange(len(nodes) + 1), {"str": "island", "tuple": ("island", ((1, "a"), ()))}.get(type(nodes[0]).__name__, 10 ** 6))
    for v in nodes:
        g.add_node(v, **{(r0.choice(NAMES) if r0.random() < .1 else "a%d" % j): value(r0) for j in range(r0.randint(0, 4))})
    for a, b in w.edges:
        g.add_edge(a, b, **{(r0.choice(NAMES) if r0.random() < .1 else "e%d" % j): value(r0) for j in range(r0.randint(0, 2))})
    for j in range(r0.randint(0, 2)):
        g.graph[r0.choice(NAMES) if r0.random() < .1 else "g%d" % j] = value(r0)
    geo = {}
    if plan["geo"]:
        for q, v in enumerate(nodes):
            if r0.random() < .8:
                g.nodes[v]["geometry"] = Shape(q)
    fr = None
    root = faultfs.scratch("c16")
    disk = faultfs.Disk(root)
    ctx.sig(nodes, w.edges)
    stored = {}                       # file -> list of acceptable contents ('' = anything unreadable), as expected graphs
    try:
        def expected(withgeo):
            und = g
            N = []
            for v in und.nodes:
                d = {}
                for k, x in und.nodes[v].items():
                    if isinstance(x, Shape):
                        if withgeo:
                            d[k] = {"type": "Point", "coordinates": [x.k, -x.k]}
                    else:
                        d[k] = plain(x)
                N.append((v, d))
            E = {frozenset((a, b)): {k: plain(x) for k, x in d.items()} for a, b, d in und.edges(data=True)}
            return N, E, {k: plain(x) for k, x in und.graph.items()}

        def matches(h, exp):
            N, E, G = exp
            if list(h.nodes) != [v for v, _ in N] or [type(v) for v in h.nodes] != [type(v) for v, _ in N]:
                return "nodes %r, expected %r" % (list(h.nodes), [v for v, _ in N])
            for v, d in N:
                got = dict(h.nodes[v])
                if set(got) != set(d):
                    return "node %r has data %r, expected %r" % (v, sorted(got), sorted(d))
                for k in d:
                    if not same(got[k], d[k]):
                        return "node %r: %s is %r, expected %r" % (v, k, got[k], d[k])
            HE = {frozenset((a, b)): dict(d) for a, b, d in h.edges(data=True)}
            if set(HE) != set(E):
                return "edges %r, expected %r" % (sorted(map(list, HE), key=repr), sorted(map(list, E), key=repr))
            for e in E:
                if set(HE[e]) != set(E[e]) or any(not same(HE[e][k], E[e][k]) for k in E[e]):
                    return "edge %r: %r, expected %r" % (list(e), HE[e], E[e])
            if set(h.graph) != set(G) or any(not same(h.graph[k], G[k]) for k in G):
                return "graph data %r, expected %r" % (dict(h.graph), G)
            return None

        def load(path, fault=None):
            disk.fault, disk.fired = fault, []
            try:
                with disk:
                    h = Graph.from_json(path)
                err = None
            except faultfs.Crash:
                h, err = None, "crash"
            except Exception as e:
                h, err = None, type(e).__name__
            finally:
                disk.fault = None
            return h, err

        def examine(path, fault=None):
            """Load a file and judge against everything it may legitimately hold."""
            ok = stored[path]
            h, err = load(path, fault)
            hard = [f for f in disk.fired if f in ("eio-read", "crash-read", "open")]
            for f in disk.fired[:1]:
                ctx.fault(f)
            if h is None:
                if err == "crash" or hard:
                    return
                ctx.check(None in ok, "unreadable", lambda: "a correctly saved file is rejected: %s" % err)
                ctx.event("rejected")
                return
            ctx.check(not hard, "swallowed", "a failing read was ignored")
            ctx.check(type(h) is Graph, "type", "from_json returned %s" % type(h).__name__)
            ms = [matches(h, e) for e in ok if e is not None]
            ctx.check(any(m is None for m in ms), "different", lambda: "loaded a different graph: %s" % (ms[-1] if ms else "a damaged file was accepted: %r" % (list(h.nodes),)))
            ctx.event("loaded")
            good[content(path)] = ok

        good = {}                         # contents that were read back correctly: damage may happen to restore one

        def content(path):
            with open(path, "rb") as f:
                return f.read()

        def damaged(path):
            """What a damaged file may hold; False if the damage left well-formed JSON, which nobody can tell from a saved file."""
            c = content(path)
            try:
                stored[path] = good.get(c) or [None]
                if c not in good:
                    json.loads(c)
                    stored.pop(path)
                    os.remove(path)
                    return False
            except ValueError:
                pass
            return True

        for op, seed in plan["ops"]:
            r = RealRandom(seed)
            SIM.stream = Stream(seed)
            SIM.set_budget(100000)
            path = os.path.join(root, r.choice(["a.json", "b.json"]))
            disk.bufsize = r.choice([1, 16, 100, 8192, 8192])
            ctx.sig(op)
            if op == "save":
                withgeo = r.random() < .4
                src = g
                if r.random() < .25:
                    fr = fr or FrozenGraph(g)
                    src = fr
                exp = expected(withgeo)
                kind = r.choice(FAULTS)
                size = 200 + 150 * len(nodes)
                before = snapshot(g)
                old = stored.get(path, [None])
                disk.fault = None if kind is None else dict(kind=kind, at=r.choice([0, 1, r.randrange(60), r.randrange(size), r.randrange(size)]))
                disk.fired = []
                crashed = False
                try:
                    with disk:
                        src.to_json(path, include_geometries_as_geojson=withgeo)
                    err = None
                except faultfs.Crash:
                    err, crashed = "crash", True
                except OSError as e:
                    err = e
                finally:
                    disk.fault = None
                ctx.check(snapshot(g) == before, "memory", "saving changed the graph in memory")
                hard = [f for f in disk.fired if f != "short-write"]
                for f in disk.fired[:1]:
                    ctx.fault(f)
                if hard:
                    ctx.check(err is not None, "unreported", lambda: "the disk failed (%s) but to_json reported nothing" % hard)
                    stored[path] = [None, exp] + old if disk.opens else old
                else:
                    ctx.check(err is None, "spurious", lambda: "to_json failed without a fault: %r" % (err,))
                    stored[path] = [exp]
                    ctx.count("saved")
                if os.path.exists(path):
                    examine(path)
                else:
                    ctx.check(bool(hard), "missing", "to_json succeeded but there is no file")
                    stored[path] = [None]
                    stored.pop(path)
                ctx.event("save", kind, err is None)
                ctx.step()
            elif op == "load" and path in stored:
                k = r.choice([None, None, "short-read", "eio-read", "crash-read", "open"])
                examine(path, None if k is None else dict(kind=k, at=r.randrange(400)))
                ctx.step()
            elif op == "truncate" and path in stored:
                n = os.path.getsize(path)
                if n:
                    cut = r.choice([0, 1, n - 1, n // 2, r.randrange(n)])
                    os.truncate(path, cut)
                    if not damaged(path):
                        continue
                    ctx.fault("truncated-file")
                    examine(path)
                    ctx.step()
            elif op == "garble" and path in stored:
                n = os.path.getsize(path)
                if n > 2:
                    with open(path, "r+b") as f:
                        how = r.choice(["zero", "tail", "stray"])
                        if how == "stray":                # a byte that belongs to no text
                            f.seek(r.randrange(n))
                            f.write(bytes([r.randrange(128, 256)]))
                        elif how == "zero":               # a zeroed block, as after a lost write
                            k = r.randrange(n)
                            f.seek(k)
                            f.write(b"\0" * min(n - k, r.choice([1, 16, 512])))
                        else:                             # two copies of the tail
                            f.seek(0, 2)
                            f.write(b"]}")
                    if not damaged(path):
                        continue
                    ctx.fault("garbled-file")
                    examine(path)
                    ctx.step()
            elif op == "data" and fr is None:
                # numeric tables joined to the graph
                df = pandas.DataFrame({"i": np.array([r.randint(-5, 10 ** 6) for _ in nodes]), "f": [r.choice([.5, 1.25, float("nan")]) for _ in nodes],
                                       "b": [r.random() < .5 for _ in nodes], "f32": np.array([r.random() for _ in nodes], dtype="float32"),
                                       "I": pandas.array([r.choice([1, 2, None]) for _ in nodes], dtype="Int64"), "B": pandas.array([r.choice([True, False, None]) for _ in nodes], dtype="boolean"),
                                       "u8": np.array([r.randrange(256) for _ in nodes], dtype="uint8"), "s": ["t%d" % j for j in range(len(nodes))]}, index=pandas.Index(nodes))
                if r.random() < .5:
                    cols = r.sample(list(df.columns), r.randint(1, 8))
                    g.join(df, columns=cols)
                else:
                    cols = list(df.columns)
                    g.add_data(df)
                for v in nodes:
                    for c in cols:
                        x, y = plain(g.nodes[v][c]), plain(df[c][v])
                        ctx.check(same(x, y) or (isinstance(x, (int, float)) and not isinstance(x, bool) and not isinstance(y, bool) and x == y), "join", lambda: "%s of %r is %r, the table says %r" % (c, v, x, y))
                ctx.count("table")
            elif op == "districtr":
                ids = {v: (str(j * 3) if r.random() < 2 else j) for j, v in enumerate(nodes)}
                col = r.choice(["GEOID", "VTD"])
                h = networkx.Graph()
                intid = r.random() < .5
                for v in nodes:
                    h.add_node(v, **{col: int(ids[v]) if intid else ids[v]})
                h.add_edges_from(w.edges)
                asg = {v: r.choice([1, 2, 3, "A"]) for v in nodes}
                doc = dict(idColumn=dict(key=col, name="x"), assignment={ids[v]: asg[v] for v in r.sample(nodes, len(nodes))}, extra=[1])
                doc["assignment"]["999999"] = 1
                k = r.choice([None, None, "missing", "truncate", "stray", "eio-read", "short-read", "column"])
                if k == "missing":
                    del doc["assignment"][ids[r.choice(nodes)]]
                if k == "column":
                    doc["idColumn"]["key"] = "NOPE"
                text = json.dumps(doc)
                p2 = os.path.join(root, "plan.json")
                with open(p2, "wb") as f:
                    q = r.randrange(len(text))
                    f.write(text[:q].encode() + (b"" if k == "truncate" else bytes([r.randrange(128, 256)]) + text[q + 1:].encode() if k == "stray" else text[q:].encode()))
                disk.fault = dict(kind=k, at=r.randrange(len(text))) if k in ("eio-read", "short-read") else None
                disk.fired = []
                disk.bufsize = r.choice([1, 64, 8192])
                try:
                    with disk:
                        p = Partition.from_districtr_file(Graph.from_networkx(h), p2)
                    err = None
                except Exception as e:
                    p, err = None, e
                finally:
                    disk.fault = None
                if k is not None:
                    ctx.fault("plan-file:" + k)
                bad = k in ("missing", "truncate", "stray", "column") or "eio-read" in disk.fired
                ctx.check((p is None) == bad, "districtr", lambda: "plan file with %s: %s" % (k, "accepted" if p is not None else "rejected with %r" % (err,)))
                if p is not None:
                    got = {v: p.assignment[v] for v in nodes}
                    ctx.check(got == asg and set(p.assignment) == set(nodes), "plan", lambda: "plan read as %r, the file states %r" % (got, asg))
                ctx.event("districtr", k, p is not None)
                ctx.step()
            ctx.state([op, sorted((os.path.basename(p), len(v)) for p, v in stored.items()), len(g.nodes[nodes[0]])])
        for p in stored:
            examine(p)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    ctx.nontrivial = bool(ctx.faults)


def probe_id():
    """An attribute called 'id' is lost."""
    import tempfile
    from gerrychain import Graph
    g = Graph()
    g.add_node(0, id=7)
    g.add_node(1)
    g.add_edge(0, 1)
    with tempfile.TemporaryDirectory() as d:
        g.to_json(os.path.join(d, "g.json"))
        return Graph.from_json(os.path.join(d, "g.json")).nodes[0].get("id") != 7


KNOWN = {"attribute-named-id-lost": probe_id}


def simpler(plan):
    for n in range(2, plan["world"]["n"]):
        yield dict(plan, world=dict(plan["world"], n=n))
    for f, v in (("shape", "path"), ("labels", "int"), ("plabels", "int"), ("pops", "unit"), ("weight", False)):
        if plan["world"][f] != v:
            yield dict(plan, world=dict(plan["world"], **{f: v}))
    for f in ("geo", "island"):
        if plan[f]:
            yield dict(plan, **{f: False})
