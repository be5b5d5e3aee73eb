"""Shared: histories of plans.  Slots hold plans with the assignment the reference gives them."""
from .seam import RealRandom, SIM, Stream
from .core import Skip

from collections import Counter

MOVES = ["single", "single", "single", "multi", "multi", "noop", "empty", "swap", "vanish", "refill", "revert",
         "rotate", "partial_noop", "cascade", "flood"]


def twin(p):
    """An equal district name that is another object, where the language allows one."""
    if type(p) is str:
        return "".join(list(p))
    if type(p) is int:
        return int(str(p))
    return p


def flips_for(kind, w, asg, parts, r, prev=None):
    """A move, as the dict of node -> district that it names; computed from the reference assignment.  One in six names its
    districts by equal but distinct objects."""
    f = _flips_for(kind, w, asg, parts, r, prev)
    return {v: twin(p) for v, p in f.items()} if r.random() < 1 / 6 else f


def _flips_for(kind, w, asg, parts, r, prev=None):
    nodes = list(w.nodes)
    if kind == "single":
        c = sorted(w.flips_of(asg), key=repr)
        return dict([r.choice(c)]) if c else {r.choice(nodes): r.choice(parts)}
    if kind == "multi":
        return {v: r.choice(parts) for v in r.sample(nodes, r.randint(1, len(nodes)))}
    if kind == "noop":
        v = r.choice(nodes)
        return {v: asg[v]}
    if kind == "partial_noop":
        m = {v: asg[v] for v in r.sample(nodes, r.randint(1, len(nodes)))}
        m[r.choice(nodes)] = r.choice(parts)
        return m
    if kind == "empty":
        return {}
    if kind == "swap":
        a, b = r.choice(parts), r.choice(parts)
        return {v: (b if asg[v] == a else a) for v in nodes if asg[v] in (a, b)}
    if kind == "rotate":
        i = {p: parts[(k + 1) % len(parts)] for k, p in enumerate(parts)}
        return {v: i[asg[v]] for v in nodes}
    if kind == "vanish":
        a, b = r.choice(parts), r.choice(parts)
        return {v: b for v in nodes if asg[v] == a}
    if kind == "refill":
        empty = [p for p in parts if p not in set(asg.values())]
        return {r.choice(nodes): r.choice(empty or list(parts))}
    if kind == "revert":
        if prev:
            return {v: prev[v] for v in nodes if prev[v] != asg[v]}
        return {}
    if kind == "cascade":                       # a connected clump moves at once
        p, s = r.choice(parts), [r.choice(nodes)]
        for _ in range(r.randint(1, 4)):
            s.append(r.choice(w.adj[s[-1]] or s))
        return {v: p for v in s}
    if kind == "flood":                         # most of the map goes to one district
        p = r.choice(parts)
        return {v: p for v in r.sample(nodes, r.randint((len(nodes) + 1) // 2, len(nodes)))}
    raise AssertionError(kind)


def apply(asg, flips):
    n = dict(asg)
    n.update(flips)
    return n


def read_asg(ctx, plan, w):
    """The plan's own node-to-district view."""
    try:
        return {v: plan.assignment[v] for v in w.nodes}
    except KeyError as e:
        ctx.fail("assignment-hole", "node %s has no district" % e)


class Slot:
    __slots__ = ("plan", "asg", "pasg", "frozen", "dropped", "prev")

    def __init__(self, plan, asg, prev=None):
        self.plan, self.asg, self.prev, self.frozen = plan, asg, prev, {}


def lib_proposals(pop_target=None):
    from gerrychain.proposals import (propose_random_flip, propose_chunk_flip)
    from gerrychain.proposals.proposals import (slow_reversible_propose, slow_reversible_propose_bi,
                                                propose_any_node_flip, propose_flip_every_district)
    return dict(random=propose_random_flip, chunk=propose_chunk_flip, slow=slow_reversible_propose,
                slowbi=slow_reversible_propose_bi, any=propose_any_node_flip, every=propose_flip_every_district)


def check_views(ctx, plan, w, asg, parts, deep=True, tag=""):
    """All views of a plan agree with the reference assignment."""
    F = lambda cls, msg: ctx.fail(cls, msg() if callable(msg) else msg)
    A = plan.assignment
    nodes = set(w.nodes)
    lv = {p: frozenset() for p in parts}
    for v, p in asg.items():
        lv[p] = lv[p] | {v}
    for v in w.nodes:
        try:
            got = A[v]
        except KeyError:
            F("hole", "node %r has no district%s" % (v, tag))
        if got != asg[v]:
            F("node-view", "node %r is in %r, expected %r%s" % (v, got, asg[v], tag))
    P = plan.parts
    if set(P.keys()) != set(parts):
        F("names", "districts %r, expected %r%s" % (list(P.keys()), parts, tag))
    if len(P) != len(parts) or len(plan) != len(parts):
        F("names", "len is %d/%d, expected %d" % (len(P), len(plan), len(parts)))
    for p in parts:
        if set(P[p]) != lv[p] or len(P[p]) != len(lv[p]):
            F("part-view", "district %r has %r, expected %r%s" % (p, sorted(P[p]), sorted(lv[p]), tag))
    if not deep:
        return
    if len(A) != len(nodes):
        F("len", "assignment has %d nodes, graph %d" % (len(A), len(nodes)))
    ks = list(A)
    if len(ks) != len(nodes) or set(ks) != nodes or set(A.keys()) != nodes:
        F("keys", "assignment iterates over %r" % (ks,))
    if dict(A.items()) != asg:
        F("items", "items() gives %r, expected %r" % (dict(A.items()), asg))
    if sorted(map(repr, A.values())) != sorted(map(repr, asg.values())):
        F("values", "values() disagree")
    if dict(A.to_dict()) != asg:
        F("to_dict", "to_dict() gives %r, expected %r" % (A.to_dict(), asg))
    ser = A.to_series()
    if len(ser) != len(nodes) or dict(ser.items()) != asg:
        F("to_series", "to_series() gives %r, expected %r" % (dict(ser.items()), asg))
    for v in w.nodes:
        if not (v in A):
            F("contains", "node %r not in the assignment" % (v,))
    E = {frozenset(e) for e in w.edges}
    for p in parts:
        sg = plan.subgraphs[p]
        if set(sg.nodes) != lv[p]:
            F("subgraph", "subgraph of %r has nodes %r, expected %r" % (p, sorted(sg.nodes), sorted(lv[p])))
        if {frozenset(e) for e in sg.edges} != {e for e in E if e <= lv[p]}:
            F("subgraph", "subgraph of %r has the wrong edges" % (p,))
    it = dict(plan.subgraphs.items())
    if set(it) != set(parts) or any(set(it[p].nodes) != lv[p] for p in parts):
        F("subgraph", "subgraphs.items() disagree")
    if Counter(frozenset(g.nodes) for g in plan.subgraphs) != Counter(frozenset(s) for s in lv.values()):
        F("subgraph", "iterating the subgraphs disagrees")
    for a, b in w.edges:
        if bool(plan.crosses_parts((a, b))) != (asg[a] != asg[b]):
            F("crosses", "crosses_parts(%r) is wrong" % ((a, b),))
