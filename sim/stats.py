"""Every statistic the library tracks: how to attach it, and how its value is compared with the reference."""
import math
from . import ref

NAMES = ["cut_edges", "cut_edges_by_part", "boundary_nodes", "exterior_boundaries", "exterior_boundaries_as_a_set",
         "interior_boundaries", "perimeter", "area", "polsby_popper", "pop", "both", "nanpop", "nanboth", "fpop",
         "dt_dict", "dt_col", "dt_series", "elec", "elec2", "csplit", "regs", "locsp", "locsp2", "trees", "flows_n",
         "flows_e"]
GRID = ["cut_edges", "population", "perimeter", "exterior_boundaries", "interior_boundaries", "boundary_nodes", "area",
        "polsby_popper", "cut_edges_by_part"]            # the statistics every Grid has
ALPHA = 0.25
CORE = ["cut_edges", "cut_edges_by_part", "boundary_nodes", "exterior_boundaries", "interior_boundaries"]


def make(w, names=NAMES):
    """Fresh updater objects for a world (those that hold data per node are bound to the world)."""
    import pandas
    from gerrychain import updaters as U
    from gerrychain.metrics import polsby_popper
    from gerrychain.updaters.locality_split_scores import LocalitySplits
    from gerrychain.updaters.flows import on_flow, on_edge_flow
    scores = ["num_parts", "num_pieces", "naked_boundary", "shannon_entropy", "power_entropy", "num_split_localities"]

    @on_flow(lambda p: {q: len(s) for q, s in p.parts.items()}, alias="flows_n")
    def flows_n(partition, previous, new_nodes, old_nodes):
        return previous + len(new_nodes) - len(old_nodes)

    def init_e(p):
        d = {q: 0 for q in p.parts}
        for a, b in p.graph.edges:
            x, y = p.assignment[a], p.assignment[b]
            if x != y:
                d[x] += 1
                d[y] += 1
        return d

    @on_edge_flow(init_e, alias="flows_e")
    def flows_e(partition, previous, new_edges, old_edges):
        return previous + len(new_edges) - len(old_edges)

    mk = dict(
        cut_edges=lambda: U.cut_edges, cut_edges_by_part=lambda: U.cut_edges_by_part,
        boundary_nodes=lambda: U.boundary_nodes, exterior_boundaries=lambda: U.exterior_boundaries,
        exterior_boundaries_as_a_set=lambda: U.exterior_boundaries_as_a_set,
        interior_boundaries=lambda: U.interior_boundaries, perimeter=lambda: U.perimeter,
        area=lambda: U.Tally("area", alias="area"), polsby_popper=lambda: polsby_popper,
        pop=lambda: U.Tally("pop"), both=lambda: U.Tally(["pop", "pop2"], alias="both"),
        nanpop=lambda: U.Tally("nanpop", alias="nanpop", dtype=float),
        nanboth=lambda: U.Tally(["pop2", "nanpop"], alias="nanboth", dtype=float),
        fpop=lambda: U.Tally("pop", alias="fpop", dtype=float),
        dt_dict=lambda: U.DataTally({v: w.attr[v]["nanpop"] for v in w.nodes}, "dt_dict"),
        dt_col=lambda: U.DataTally("pop2", "dt_col"),
        dt_series=lambda: U.DataTally(pandas.Series([w.attr[v]["pop2"] for v in w.nodes],
                                                    index=pandas.Index(w.nodes, tupleize_cols=False)), "dt_series"),
        elec=lambda: U.Election("elec", {"D": "dem", "R": "rep", "G": "grn"}),
        elec2=lambda: U.Election("Second", ["dem", "rep"], alias="elec2"),
        csplit=lambda: U.county_splits("csplit", "county"), regs=lambda: U.tally_region_splits(["county", "loc"]),
        locsp=lambda: LocalitySplits("locsp", "county", "pop", scores, pent_alpha=ALPHA),
        locsp2=lambda: LocalitySplits("locsp2", "loc", "pop", scores + ["symmetric_entropy"], pent_alpha=ALPHA),
        trees=lambda: U.num_spanning_trees, flows_n=lambda: flows_n, flows_e=lambda: flows_e)
    return {n: mk[n]() for n in names}


def close(a, b):
    return (math.isnan(a) and math.isnan(b)) or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)


def isnum(x):
    return (isinstance(x, (int, float)) or type(x).__module__ == "numpy") and not isinstance(x, bool)


def usable(name, w, asg, parts):
    """Is the statistic defined for this plan (see the property's domain)?"""
    empty = len(set(asg.values())) < len(parts)
    if name == "trees":
        return not empty and max(map(len, w.level(asg, parts).values())) <= 24   # a floating-point determinant
    if name == "locsp2":
        lv = w.level(asg, parts)
        return all(sum(w.attr[v]["pop"] for v in s) > 0 for s in lv.values()) and \
            all(sum(w.attr[v]["pop"] for v in w.nodes if w.attr[v]["loc"] == c) > 0
                for c in {w.attr[v]["loc"] for v in w.nodes})
    if name == "locsp":
        return w.total("pop") > 0
    return True


def compare(name, val, w, asg, parts, parent=None, parent_known=True):
    """None if the value is right, else text.  parent: assignment of the parent plan; parent_known: link alive."""
    def dic(exp, eq=lambda a, b: a == b):
        if not hasattr(val, "items"):
            return "not a mapping: %r" % (val,)
        extra = [k for k in val.keys() if k not in exp]
        if extra:
            return "unexpected districts %r" % (extra,)
        for p, x in exp.items():
            got = dict.get(val, p) if isinstance(val, dict) else val.get(p)
            if p not in val:
                return "district %r missing, expected %r" % (p, x)
            if not eq(got, x):
                return "district %r: %r, expected %r" % (p, got, x)
        return None

    def num(a, b):
        return isnum(a) and a == b

    if name == "cut_edges":
        e = ref.cut_edges(w, asg)
        return None if set(val) == e and len(val) == len(e) else "cut edges %r, expected %r" % (sorted(val), sorted(e))
    if name == "cut_edges_by_part":
        return dic(ref.cut_by_part(w, asg, parts), lambda a, b: set(a) == b)
    if name == "boundary_nodes":
        return None if set(val) == ref.boundary(w) else "boundary nodes %r" % (val,)
    if name == "exterior_boundaries":
        return dic(ref.ext_perim(w, asg, parts), num)
    if name == "exterior_boundaries_as_a_set":
        return dic(ref.ext_set(w, asg, parts), lambda a, b: set(a) == b)
    if name == "interior_boundaries":
        return dic(ref.int_perim(w, asg, parts), num)
    if name == "perimeter":
        return dic(ref.perim(w, asg, parts), num)
    if name == "polsby_popper":
        e = ref.polsby(w, asg, parts)
        for p in e:
            if any(q == p for q in asg.values()) and p not in val:
                return "district %r missing" % (p,)
            if p in val and not close(val[p], e[p]):
                return "polsby-popper of %r: %r, expected %r" % (p, val[p], e[p])
        return None
    A = w.attr
    col = {"area": lambda v: A[v]["area"], "population": lambda v: A[v]["population"], "pop": lambda v: A[v]["pop"], "fpop": lambda v: A[v]["pop"],
           "both": lambda v: A[v]["pop"] + A[v]["pop2"], "nanpop": lambda v: A[v]["nanpop"],
           "nanboth": lambda v: A[v]["pop2"] + A[v]["nanpop"], "dt_dict": lambda v: A[v]["nanpop"],
           "dt_col": lambda v: A[v]["pop2"], "dt_series": lambda v: A[v]["pop2"]}
    if name in col:
        return dic(ref.tally(w, asg, parts, col[name]), num)
    if name == "flows_n":
        return dic({p: len(s) for p, s in w.level(asg, parts).items()}, num)
    if name == "flows_e":
        return dic({p: len(s) for p, s in ref.cut_by_part(w, asg, parts).items()}, num)
    if name in ("elec", "elec2"):
        P = {"D": "dem", "R": "rep", "G": "grn"} if name == "elec" else {"dem": "dem", "rep": "rep"}
        T = {q: ref.tally(w, asg, parts, lambda v, c=c: A[v][c]) for q, c in P.items()}
        tot = {p: sum(T[q][p] for q in P) for p in parts}
        regs = list(val.regions)
        if set(regs) != set(parts) or len(regs) != len(parts):
            return "regions %r" % (regs,)
        for q in P:
            if list(val.counts(q)) != [T[q][p] for p in regs] or list(val.votes(q)) != [T[q][p] for p in regs]:
                return "votes of %s: %r, expected %r" % (q, dict(zip(regs, val.counts(q))), T[q])
            for p in regs:
                if val.count(q, p) != T[q][p]:
                    return "votes of %s in %r: %r, expected %r" % (q, p, val.count(q, p), T[q][p])
                win = all(T[q][p] > T[o][p] for o in P if o != q)
                if bool(val.won(q, p)) != win:
                    return "won(%s, %r) is %r, votes %r" % (q, p, val.won(q, p), {o: T[o][p] for o in P})
                x = val.percent(q, p)
                if not close(x, T[q][p] / tot[p] if tot[p] else math.nan):
                    return "share of %s in %r: %r" % (q, p, x)
            if [close(a, T[q][p] / tot[p] if tot[p] else math.nan) for a, p in zip(val.percents(q), regs)] != [True] * len(regs):
                return "shares of %s: %r" % (q, val.percents(q))
            seats = sum(all(T[q][p] > T[o][p] for o in P if o != q) for p in parts)
            if val.seats(q) != seats or val.wins(q) != seats:
                return "seats of %s: %r, expected %r" % (q, val.seats(q), seats)
            if val.count(q) != sum(T[q].values()):
                return "statewide votes of %s: %r" % (q, val.count(q))
            if sum(tot.values()) and not close(val.percent(q), sum(T[q].values()) / sum(tot.values())):
                return "statewide share of %s: %r" % (q, val.percent(q))
        if val.total_votes() != sum(tot.values()):
            return "total votes %r, expected %r" % (val.total_votes(), sum(tot.values()))
        return None
    if name == "csplit":
        e = ref.county_info(w, asg, parent, "county")
        if set(val.keys()) != set(e):
            return "counties %r" % (list(val),)
        for c, (st, ns, seen) in e.items():
            i = val[c]
            if sorted(i.nodes) != sorted(ns) or set(i.contains) != seen:
                return "county %r: nodes %r districts %r, expected %r %r" % (c, i.nodes, i.contains, ns, seen)
            ok = {st} if parent_known or st != "NEW_SPLIT" else {"NEW_SPLIT", "OLD_SPLIT"}
            if i.split.name not in ok:
                return "county %r is %s, expected %s" % (c, i.split.name, st)
        return None
    if name == "regs":
        e = {c: ref.regions_split(w, asg, c) for c in ("county", "loc")}
        return None if dict(val) == e else "split regions %r, expected %r" % (val, e)
    if name in ("locsp", "locsp2"):
        e = ref.locality(w, asg, parts, "county" if name == "locsp" else "loc", "pop", ALPHA)
        for s, x in val.items():
            if not isnum(x) or not close(x, e[s]):
                return "%s is %r, expected %r" % (s, x, e[s])
        return None if len(val) == (6 if name == "locsp" else 7) else "scores %r" % (val,)
    if name == "trees":
        for p, s in w.level(asg, parts).items():
            n = ref.spanning_trees(w, s)
            if p not in val or not (math.isclose(val[p], n, rel_tol=1e-6, abs_tol=1e-3)):
                return "spanning trees of %r: %r, expected %d" % (p, val.get(p), n)
        return None
    raise AssertionError(name)


def freeze(val):
    """A deep, comparable copy of a statistic value (for 'never changes')."""
    from .core import canon
    if hasattr(val, "totals_for_party"):
        return canon([val.totals_for_party, val.totals, val.percents_for_party, list(val.regions)])
    if isinstance(val, dict):
        return canon({k: (tuple([v.split.name, sorted(v.nodes), set(v.contains)]) if hasattr(v, "contains") else v)
                      for k, v in val.items()})
    return canon(val)


def parent_chain_usable(name, w, plan, parts):
    q = plan.parent
    while q is not None:
        if not usable(name, w, {v: q.assignment[v] for v in w.nodes}, parts):
            return False
        q = q.parent
    return True


def read(ctx, w, s, name, parts, flags=None):
    """Read one statistic of a slot, compare with the reference and with every earlier reading."""
    if not usable(name, w, s.asg, parts):
        return
    par = s.plan.parent
    pasg = {v: par.assignment[v] for v in w.nodes} if par is not None else None
    if not parent_chain_usable(name, w, s.plan, parts):     # ancestors' values are read on the way
        return
    known = pasg is not None or s.prev is None
    if flags is not None:
        flags.add("incremental" if pasg is not None else "scratch" if s.prev is not None else "root")
    val = s.plan[name]
    ctx.count("reads")
    ctx.event("read", name)
    m = compare(name, val, w, s.asg, parts, pasg if pasg is not None else s.prev, known)
    if m:
        ctx.fail("stat:" + name, "%s (parent %s): %s\nassignment %r" % (
            name, "alive" if par is not None else "gone", m, s.asg))
    f = freeze(s.plan[name])
    if name in s.frozen:
        ctx.check(s.frozen[name] == f, "stat-changed:" + name, lambda: "%s read again differs: %s then %s" % (
            name, s.frozen[name], f))
    s.frozen[name] = f
