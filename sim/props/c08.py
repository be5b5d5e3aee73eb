"""C08: numeric and split constraints, alone and combined, over sequences of plans and faults."""
import math
from ..seam import RealRandom, SIM, Stream
from .. import world, hist, stats, ref
from ..core import seed_of
from ..boom import BOOM, boom

RUNS = {"quick": 9000, "thorough": 80000}
SHRINK = ["ops", "cons"]
RULE = ("one run = one world, 1-5 constraints with thresholds placed at, just below and just above attained values (zero and "
        "negative included), combined as list, tuple, iterator, generator, single callable or nested Validator, asked about plans in "
        "random order directly, through the Validator and by a chain, with faults and non-boolean answers thrown in; non-trivial if "
        "both verdicts occurred and a fault, non-boolean answer or chain segment")
ASSUMPTIONS = ["thresholds closer than 1e-9 (relative) to the compared value are used only when the arithmetic is exact",
               "no_vanishing_districts is judged on plans whose parent is known"]

KINDS = ["ideal", "ideal", "bounds", "upper", "lower", "scu", "scl", "wpr", "vanish", "splits", "tolerance", "custom", "compact",
         "nonbool", "faulty"]


def gen(rng, tier, i):
    cons = [[rng.choice(KINDS), rng.randrange(1 << 30)] for _ in range(rng.randint(1, 5))]
    ops = [[rng.choice(["move"] * 5 + ["ask"] * 6 + ["chain", "chain", "erase", "fleeting", "fleeting"]), rng.randrange(1 << 30)] for _ in range(rng.randint(6, 24) if rng.random() > .01 else 200)]
    return dict(world=world.spec(rng, 4, 12, 2, 4, shapes=world.ISLANDS, pops=["unit", "small", "skew", "quarter", "zero", "census"], wide=.02, one=.02), cons=cons, ops=ops,
                form=rng.choice(["list", "tuple", "iter", "gen", "nested", "set"]))


class Con:
    """One constraint object of the library with its reference.  expect(plan) -> True/False/None (undecided)/'error'."""

    def __init__(self, kind, seed, w, init, iasg, parts, ctx):
        from gerrychain import constraints as C
        r = RealRandom(seed)
        self.kind, self.ctx, self.w, self.parts = kind, ctx, w, parts
        self.first = None
        self.armed = False
        self.isbound = kind in ("scu", "scl", "wpr")
        pops = lambda a: ref.tally(w, a, parts, lambda v: w.attr[v]["pop"])
        if kind == "ideal":
            pct = r.choice([0.0, .125, .25, .5, 1.0, .01, .1, .3])
            if r.random() < .4:                          # a constraint made from a plan reached by moves, districts emptied included
                fl = hist.flips_for(r.choice(["multi", "vanish", "vanish", "single"]), w, iasg, parts, r)
                init = init.flip(fl)
                iasg = hist.apply(iasg, fl)
            ideal = sum(pops(iasg).values()) / len(parts)
            if r.random() < .2:
                pct = .01
                self.obj = C.within_percent_of_ideal_population(init)
            else:
                self.obj = C.within_percent_of_ideal_population(init, pct, "pop")
            lo, hi = (1 - pct) * ideal, (1 + pct) * ideal

            def ex(p, a):
                vals = list(pops(a).values())
                exact = pct in (0.0, .125, .25, .5, 1.0) and (ideal * 1024).is_integer()
                if not exact and any(near(v, t) for v in vals for t in (lo, hi)):
                    return None
                return all(lo <= v <= hi for v in vals)
            self.expect = ex
        elif kind == "custom":
            v0 = r.choice(w.nodes)
            self.obj = lambda p: p.assignment[v0] == parts[0] or p.assignment[v0] == parts[-1]
            self.expect = lambda p, a: a[v0] in (parts[0], parts[-1])
        elif kind in ("bounds", "upper", "lower", "scu", "scl", "wpr"):
            # a quantity of the plan, exactly representable, shifted so that zero and negative values occur
            q, shift = r.choice(["size", "pop", "cut"]), r.choice([0, 0, 1, 2, 3, 50])
            part = r.choice(parts)

            def value(a):
                if q == "size":
                    x = sum(1 for v in a if a[v] == part)
                elif q == "pop":
                    x = pops(a)[part]
                else:
                    x = len(w.cut(a))
                return x - shift

            def func(p):
                if self.armed:
                    self.armed = False
                    raise boom(ctx)
                x = len(p.parts[part]) if q == "size" else p["pop"][part] if q == "pop" else len(p["cut_edges"])
                x = x - shift
                if self.first is None:
                    self.first = x
                return x
            base = value(iasg)
            t = base + r.choice([-2, -1, 0, 0, 0, 1, 2])
            if kind == "upper":
                self.obj, self.expect = C.UpperBound(func, t), lambda p, a: value(a) <= t
            elif kind == "lower":
                self.obj, self.expect = C.LowerBound(func, t), lambda p, a: value(a) >= t
            elif kind == "bounds":
                lo, hi = sorted((r.choice([0, 1, 2]) - shift, base + r.choice([0, 1, 2])))

                def many(p):
                    if self.armed:
                        self.armed = False
                        raise boom(ctx)
                    return [len(s) - shift for s in p.parts.values()]
                self.obj = C.Bounds(many, (lo, hi))
                self.expect = lambda p, a: all(lo <= len(s) - shift <= hi for s in w.level(a, parts).values())
            elif kind == "scu":
                self.obj, self.expect = C.SelfConfiguringUpperBound(func), lambda p, a: value(a) <= self.lim(value(a))
            elif kind == "scl":
                eps = r.choice([0, .5, 1, .05])
                self.obj = C.SelfConfiguringLowerBound(func, eps) if eps != .05 else C.SelfConfiguringLowerBound(func)

                def ex(p, a):
                    return value(a) >= self.lim(value(a)) - eps
                self.expect = ex
            else:
                pct = r.choice([0, 12.5, 25, 50, 100])
                self.obj = C.WithinPercentRangeOfBounds(func, pct)

                def ex(p, a):
                    f = self.lim(value(a))
                    lo, hi = sorted((f * (1 - pct / 100), f * (1 + pct / 100)))
                    return lo <= value(a) <= hi
                self.expect = ex
            self.value = value
        elif kind == "vanish":
            self.obj = C.no_vanishing_districts
            self.expect = lambda p, a: (None if p.parent is None else True) if set(a.values()) == set(parts) else \
                (False if p.parent is not None else None)
        elif kind == "splits":
            self.obj = C.refuse_new_splits("csplit")

            def ex(p, a):
                if p.parent is None:
                    return None
                par = {v: p.parent.assignment[v] for v in w.nodes}
                return not any(st == "NEW_SPLIT" for st, _, _ in ref.county_info(w, a, par, "county").values())
            self.expect = ex
        elif kind == "tolerance":
            pct = r.choice([0.0, .125, .25, .5, .1, 10, 50, 25.0, 1])
            self.obj = lambda p: C.districts_within_tolerance(p, "pop", pct)

            def ex(p, a):
                f = pct * .01 if pct >= 1 else pct
                v = pops(a).values()
                d, lim = max(v) - min(v), f * min(v)
                if pct not in (0.0, .125, .25, .5) and near(d, lim):
                    return None
                return d <= lim
            self.expect = ex
        elif kind == "compact":
            which = r.choice(["L1_polsby_popper", "L2_polsby_popper", "L1_reciprocal_polsby_popper", "L_minus_1_polsby_popper"])
            lib = getattr(C, which)
            t = r.choice([.1, .3, .5, 1, 2, 5, 20])
            self.obj = C.UpperBound(lib, t)

            def ex(p, a):
                if set(a.values()) != set(parts):
                    return None
                pp = ref.polsby(w, a, parts)
                if any(not x > 0 for x in pp.values()):
                    return None
                x = {"L1_polsby_popper": sum(pp.values()), "L2_polsby_popper": math.sqrt(sum(y * y for y in pp.values())),
                     "L1_reciprocal_polsby_popper": sum(1 / y for y in pp.values()),
                     "L_minus_1_polsby_popper": len(pp) / sum(1 / y for y in pp.values())}[which]
                return None if near(x, t) else x <= t
            self.expect = ex
            self.defined = lambda a: set(a.values()) == set(parts) and all(x > 0 for x in ref.polsby(w, a, parts).values())
        elif kind == "nonbool":
            ans = r.choice([None, 1, 0, "yes", [], 1.0])
            v0 = r.choice(w.nodes)
            self.obj = lambda p: ans if p.assignment[v0] == parts[0] else True
            self.expect = lambda p, a: "nonbool" if a[v0] == parts[0] else True
        elif kind == "faulty":
            import numpy

            def obj(p):
                if self.armed:
                    self.armed = False
                    raise boom(ctx)
                return numpy.bool_(True)
            self.obj = obj
            self.expect = lambda p, a: True
        raw = self.expect                                # the reference answers with plain booleans whatever the plan's data are

        def plain(p, a):
            x = raw(p, a)
            return x if x is None or isinstance(x, str) else bool(x)
        self.expect = plain

    def lim(self, v):
        return v if self.first is None else self.first


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def execute(plan, ctx):
    import numpy
    from gerrychain import Partition, MarkovChain
    from gerrychain.constraints import Validator, deviation_from_ideal
    w = world.World(plan["world"])
    parts = w.parts
    ups = stats.make(w, ["cut_edges", "cut_edges_by_part", "boundary_nodes", "exterior_boundaries", "interior_boundaries",
                         "perimeter", "area", "polsby_popper", "pop", "csplit"])
    ups["population"] = lambda p: p["pop"]              # the statistic the population constraint looks for if it is not told
    init = Partition(w.graph(), dict(w.start), ups, use_default_updaters=False)
    slots = [hist.Slot(init, dict(w.start))]
    ctx.sig(plan["cons"], w.edges)
    C = [Con(k, s, w, init, dict(w.start), parts, ctx) for k, s in plan["cons"]]
    objs = [c.obj for c in C]
    f = plan["form"]
    val = Validator({"list": lambda: list(objs), "tuple": lambda: tuple(objs), "iter": lambda: iter(objs), "gen": lambda: (o for o in objs),
                     "set": lambda: dict.fromkeys(objs), "nested": lambda: [Validator(objs[:1]), Validator(objs[1:])]}[f]())
    seen = set()

    def ok_to_ask(c, s):
        """statistics behind the constraint are defined for this plan"""
        if c.kind == "compact":
            return c.defined(s.asg)
        return True

    def one(c, s):
        want = c.expect(s.plan, s.asg)
        if c.kind == "splits" and s.plan.parent is None:
            want = True if s.prev is None else None
        got = c.obj(s.plan)
        if want == "nonbool":
            return
        isb = got is True or got is False or isinstance(got, numpy.bool_)
        ctx.check(isb, "type:" + c.kind, lambda: "%s answered %r" % (c.kind, got))
        if want is not None:
            ctx.check(bool(got) == want, "verdict:" + c.kind, lambda: "%s says %r, expected %r (limit plan value %r, value %r)\n%r" % (
                c.kind, got, want, c.first, c.value(s.asg) if hasattr(c, "value") else None, s.asg))
            seen.add(want)
            ctx.event(c.kind, want)

    def combined(s, call, r, where):
        """Ask through the Validator (or a chain); compare with the conjunction."""
        boom = None
        armable = [c for c in C if c.kind in ("faulty", "upper", "lower", "bounds", "scu", "scl", "wpr") and (not c.isbound or c.first is not None)]
        if armable and r.random() < .25:
            boom = r.choice(armable)
            boom.armed = True
        wants = []
        for c in C:
            x = c.expect(s.plan, s.asg)
            if c.kind == "splits" and s.plan.parent is None:
                x = True if s.prev is None else None
            wants.append(x)
        try:
            try:
                got = call(s.plan)
            finally:
                left = boom is not None and boom.armed
                if boom is not None:
                    boom.armed = False
        except BOOM:
            ctx.check(boom is not None and not left, "boom", "unexpected error")
            ctx.fault("constraint-raised")
            return None
        except TypeError as e:
            ctx.check("nonbool" in wants, "typeerror", lambda: "TypeError without a non-boolean answer: %s" % e)
            ctx.fault("non-boolean")
            return None
        if boom is not None:
            if not left:
                ctx.fail("swallowed", "an error raised by a constraint was swallowed")
        if any(x is False for x in wants):
            ctx.check(got is False or got is numpy.False_, "conj", lambda: "%s admitted a plan that fails %r" % (
                where, [c.kind for c, x in zip(C, wants) if x is False]))
        elif "nonbool" in wants and None not in wants:
            ctx.fail("nonbool", "%s treated a non-boolean answer as %r" % (where, got))
        elif all(x is True for x in wants):
            ctx.check(bool(got) is True, "conj", lambda: "%s refused a plan that passes every constraint %r" % (where, [c.kind for c in C]))
        if not isinstance(got, (bool, numpy.bool_)):
            ctx.fail("type", "%s answered %r" % (where, got))
        seen.add(bool(got))
        return bool(got)

    for op, seed in plan["ops"]:
        r = RealRandom(seed)
        SIM.stream = Stream(seed_of("op", seed))
        SIM.set_budget(300000)
        s = r.choice(slots)
        ctx.sig(op)
        if op == "move":
            fl = hist.flips_for(r.choice(hist.MOVES), w, s.asg, parts, r, s.prev)
            slots.append(hist.Slot(s.plan.flip(fl), hist.apply(s.asg, fl), s.asg))
            ctx.step()
            ctx.state([w.edges, slots[-1].asg])
        elif op == "erase":
            s.plan.parent = None
            ctx.fault("ancestry-erased")
        elif op == "ask":
            if r.random() < .5:
                for c in r.sample(C, len(C)):
                    if ok_to_ask(c, s):
                        one(c, s)
            elif all(ok_to_ask(c, s) for c in C):
                combined(s, val, r, "the Validator")
            if r.random() < .2 and w.total():
                d = deviation_from_ideal(s.plan, "pop")
                t = ref.tally(w, s.asg, parts, lambda v: w.attr[v]["pop"])
                ideal = sum(t.values()) / len(parts)
                ctx.check(set(d) == set(parts) and all(stats.close(d[p], (t[p] - ideal) / ideal) for p in parts), "deviation", lambda: "%r for %r" % (d, t))
        elif op == "fleeting":
            # plans nobody keeps: asked about once and gone, so that later ones take their place in memory
            for _ in range(r.choice([3, 6, 12])):
                fl = hist.flips_for(r.choice(hist.MOVES), w, s.asg, parts, r, s.prev)
                t = hist.Slot(s.plan.flip(fl), hist.apply(s.asg, fl), s.asg)
                if all(ok_to_ask(c, t) for c in C):
                    combined(t, val, r, "the Validator")
                t = None
                ctx.step()
            ctx.count("fleeting")
        elif op == "chain":
            if any(c.kind == "nonbool" for c in C):
                use = [c for c in C if c.kind != "nonbool"]
            else:
                use = list(C)
            use = [c for c in use if c.kind != "compact"]
            if not use or not all(c.expect(s.plan, s.asg) is not False for c in use):
                continue
            n = [0]
            cap, rate = r.choice([(40, 1), (120, .5), (120, .3)])

            class Stop(Exception):
                pass

            def proposal(p):
                n[0] += 1
                if n[0] > cap:
                    raise Stop()
                a = hist.read_asg(ctx, p, w)
                return p.flip(hist.flips_for(r.choice(hist.MOVES), w, a, parts, r))
            form = r.choice(["list", "iter", "gen", "validator"])
            os_ = [c.obj for c in use]
            given = {"list": lambda: os_, "iter": lambda: iter(os_), "gen": lambda: (o for o in os_), "validator": lambda: Validator(os_)}[form]()
            try:
                g = given if len(os_) > 1 or r.random() < .5 else os_[0]
                if r.random() < .35:
                    from gerrychain.optimization import SingleMetricOptimizer
                    o = SingleMetricOptimizer(proposal, g, s.plan, lambda p: len(p["cut_edges"]), maximize=r.random() < .5)
                    ch = o.short_bursts(r.randint(2, 4), r.randint(2, 3)) if r.random() < .6 else o.variable_length_short_bursts(8, 1)
                    ctx.count("optimizer")
                else:
                    ch = MarkovChain(proposal, g, lambda p: r.random() < rate, s.plan, r.randint(2, 8) if rate == 1 else 25)
                first = True
                for p in ch:
                    ctx.step()
                    a = hist.read_asg(ctx, p, w)
                    if not first:
                        for c in use:
                            x = c.expect(p, a)
                            ctx.check(x is not False, "emitted:" + c.kind, lambda: "the chain emitted a plan that fails %s: %r" % (c.kind, a))
                    first = False
                    p = None
                ctx.count("chain")
            except Stop:
                ctx.count("chain-stuck")
            except ValueError as e:
                if "not valid" not in str(e):
                    raise
                ctx.check(not all(c.expect(s.plan, s.asg) is True for c in use), "initial", "a valid initial plan was refused: %s" % e)
    ctx.nontrivial = len(seen) == 2 and bool(ctx.faults or ctx.counts)


def simpler(plan):
    for n in range(4, plan["world"]["n"]):
        yield dict(plan, world=dict(plan["world"], n=n))
    for f, v in (("shape", "path"), ("labels", "int"), ("plabels", "int"), ("pops", "unit"), ("weight", False), ("k", 2)):
        if plan["world"][f] != v:
            yield dict(plan, world=dict(plan["world"], **{f: v}))
    if plan["form"] != "list":
        yield dict(plan, form="list")
