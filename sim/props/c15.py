"""C15: errors and interrupts at any instruction of a step leave everything usable."""
from ..seam import RealRandom, SIM, Stream
from .. import world, hist, stats, graphfp
from ..interrupt import At, Interrupt
from ..core import seed_of
from ..boom import BOOM, boom
from .c02 import DEPS

RUNS = {"quick": 2400, "thorough": 80000}
SHRINK = ["ops", "stats"]
RULE = ("one run = one world and two chains sharing plan and graph (flips, recombination, reversible recombination, every-district "
        "moves; contiguity, population and own constraints); a seeded scheduler advances them and delivers, at a random line or opcode "
        "inside the library, an interrupt, keyboard interrupt or out-of-memory error, or makes a callback raise, also while statistics are "
        "read or a move is made; afterwards all plans, statistics, the graph and the remaining steps are examined; non-trivial if at "
        "least one interrupt was delivered inside library code")
ASSUMPTIONS = ["interrupts are delivered between lines or bytecodes of the library's own Python code, not inside C code or networkx",
               "after an interrupt (not a callback error) the interrupted step may or may not have been counted and may or may not have moved the chain"]
KINDS = ["own", "own", "random", "every", "recom", "reversible", "chunk", "slow"]


def gen(rng, tier, i):
    ops = [[rng.choice(["next"] * 5 + ["int"] * 6 + ["boom"] * 3 + ["readint", "readint", "flipint", "reiter", "read", "seedint", "enumint"]), rng.randrange(2), rng.randrange(1 << 30)]
           for _ in range(rng.randint(5, 22))]
    return dict(world=world.spec(rng, 4, 11, 2, 4, pops=["unit", "small", "quarter", "census"], wide=.02), stats=rng.sample(stats.NAMES, rng.randint(2, 9)), ops=ops,
                kinds=[rng.choice(KINDS) for _ in range(2)], cons=[rng.choice(["own", "contig", "pop", "splits", "bound"]) for _ in range(2)], n=[rng.randint(2, 12) for _ in range(2)])


class Chain:
    def __init__(self, ctx, w, init, kind, con, n, k, seed):
        from gerrychain import MarkovChain
        from gerrychain import constraints as C
        from gerrychain.proposals import recom, reversible_recom
        from gerrychain.tree import bipartition_tree
        from functools import partial
        self.ctx, self.w, self.init, self.n, self.k = ctx, w, init, n, k
        self.r = RealRandom(seed_of("chain", seed, k))
        self.stream = Stream(seed_of("chaindraws", seed, k))
        self.arm = None
        self.refused = 0
        parts = w.parts
        L = hist.lib_proposals()
        target = w.total() / len(parts)

        def proposal(p):
            self.tick("proposal")
            a = hist.read_asg(ctx, p, w)
            ctx.check(a in self.allowed, "state", lambda: "chain %d proposes from %r, its current plan is %r" % (k, a, self.allowed))
            self.allowed = [a]
            q = None
            if self.refused > 40:                          # everything was refused: the identity move is admissible
                q = p.flip({})
            elif kind in L and p["cut_edges"]:
                q = L[kind](p)
            elif kind == "recom" and target and w.contiguous(a, parts):
                try:
                    q = recom(p, "pop", target, .9, method=partial(bipartition_tree, max_attempts=4, allow_pair_reselection=True))
                except Interrupt:
                    raise
                except (RuntimeError, Exception) as e:
                    if type(e).__name__ not in ("MetagraphError", "RuntimeError", "PopulationBalanceError"):
                        raise
            elif kind == "reversible" and target and w.contiguous(a, parts):
                q = reversible_recom(p, "pop", target, .9, M=400)
            if q is None:
                q = p.flip(hist.flips_for(self.r.choice(hist.MOVES), w, a, parts, self.r))
            self.last = hist.read_asg(ctx, q, w)
            self.valid = None
            return q

        def con0(p):
            self.tick("constraint")
            self.refused += 1
            return p is init or self.refused > 40 or self.r.random() < .8
        lib = {"own": [], "contig": [C.contiguous], "pop": [C.within_percent_of_ideal_population(init, 99.0, "pop")],
               "splits": [], "bound": [C.SelfConfiguringUpperBound(lambda p: (self.tick("bound"), len(p["cut_edges"]))[1])]}[con]
        if con == "splits":
            lib = [C.refuse_new_splits("csplit")]
        self.libcon = con

        def accept(p):
            self.tick("accept")
            self.refused = 0
            ok = self.r.random() < .75
            self.valid = ok
            return ok
        self.chain = MarkovChain(proposal, [con0] + lib, accept, init, n)
        self.started = False

    def tick(self, where):
        if self.arm and self.arm[0] == where:
            self.arm[1] -= 1
            if self.arm[1] <= 0:
                self.arm = None
                self.raised = where
                raise boom(self.ctx)

    def reiter(self):
        iter(self.chain)
        self.out, self.slack = 0, 0
        self.allowed = [dict(self.w.start)]
        self.started = True
        self.refused = 0

    def next(self, at=None):
        """-> slot, 'end', 'boom' or 'int'"""
        ctx, w = self.ctx, self.w
        if not self.started:
            self.reiter()
        keep, SIM.stream = SIM.stream, self.stream
        SIM.set_budget(300000)
        self.valid = self.last = None
        self.raised = None
        prev = list(self.allowed)
        try:
            if at is None:
                p = next(self.chain)
            else:
                with at:
                    p = next(self.chain)
        except StopIteration:
            if at is not None and at.hit:
                # the interrupt hit the very end
                ctx.fail("swallowed", "an interrupt ended the chain silently")
            ctx.check(self.raised is None, "swallowed", "an error in a callback ended the chain silently")
            ctx.check(self.n - self.slack <= self.out <= self.n, "steps", lambda: "chain %d ended after %d of %d steps (%d interrupted)" % (self.k, self.out, self.n, self.slack))
            self.started = False
            return "end"
        except BOOM:
            ctx.check(self.raised is not None, "boom", "unexpected")
            ctx.fault("callback-raised:" + self.raised)
            st = hist.read_asg(ctx, self.chain.state, w)
            ctx.check(st in self.allowed, "moved", lambda: "a step in which a callback raised moved the chain: %r -> %r" % (self.allowed, st))
            return "boom"
        except (Interrupt, KeyboardInterrupt, MemoryError):
            ctx.check(at is not None and at.hit, "interrupt", "unexpected interrupt")
            ctx.fault("interrupt:" + at.exc.__name__)
            ctx.count("in:" + str(at.where))
            self.slack += 1
            if self.valid and self.last is not None:
                self.allowed = self.allowed + [self.last]
            st = hist.read_asg(ctx, self.chain.state, w)
            ctx.check(st in self.allowed, "half", lambda: "after an interrupt the chain is in %r, before it was in %r" % (st, self.allowed))
            self.allowed = [st]
            return "int"
        finally:
            SIM.stream = keep
        ctx.check(at is None or not at.hit, "swallowed", lambda: "an interrupt in %s was swallowed" % at.where)
        ctx.check(self.raised is None, "swallowed", "an error raised by a callback was swallowed")
        self.out += 1
        ctx.check(self.out <= self.n, "steps", "more than %d steps" % self.n)
        a = hist.read_asg(ctx, p, w)
        if self.last is None:
            ctx.check(a in prev, "emit", lambda: "emitted %r without a proposal; current %r" % (a, prev))
        elif self.valid:
            ctx.check(a == self.last, "emit", lambda: "emitted %r, accepted %r" % (a, self.last))
        else:
            ctx.check(a in self.allowed, "emit", lambda: "emitted %r, current %r" % (a, self.allowed))
        self.allowed = [a]
        if self.libcon == "contig" and w.contiguous(w.start, w.parts):
            ctx.check(w.contiguous(a, w.parts), "contig", lambda: "emitted a disconnected plan %r" % (a,))
        s = hist.Slot(p, a, None if p is self.init else (hist.read_asg(ctx, p.parent, w) if p.parent is not None else dict(a)))
        return s


def execute(plan, ctx):
    from gerrychain import Partition
    w = world.World(plan["world"])
    parts = w.parts
    names = list(plan["stats"]) or ["pop"]
    need = ["cut_edges", "cut_edges_by_part", "pop", "csplit"] + [n for n in names if n not in ("cut_edges", "cut_edges_by_part", "pop", "csplit")]
    for n in names:
        need += [d for d in DEPS.get(n, []) if d not in need]
    g = w.graph()
    init = Partition(g, dict(w.start), stats.make(w, need), use_default_updaters=False)
    before = graphfp.fp(g)
    ctx.sig(w.edges, plan["kinds"], plan["cons"])
    chains = [Chain(ctx, w, init, plan["kinds"][k], plan["cons"][k], plan["n"][k], k, plan["seed"]) for k in range(2)]
    slots = [hist.Slot(init, dict(w.start))]
    ints = 0

    def keepslot(s):
        if isinstance(s, hist.Slot) and not any(s.plan is t.plan for t in slots):
            slots.append(s)
            ctx.state([w.edges, s.asg])

    def audit(r, all_=False):
        graphfp.compare(ctx, before, graphfp.fp(init.graph), " after an error or interrupt")
        for s in (slots if all_ else r.sample(slots, min(3, len(slots)))):
            hist.check_views(ctx, s.plan, w, s.asg, parts, all_, " (after an error or interrupt)")
            for n in r.sample(names, min(len(names), 9 if all_ else 3)):
                stats.read(ctx, w, s, n, parts)

    for op, k, seed in plan["ops"]:
        r = RealRandom(seed)
        SIM.stream = Stream(seed_of("op", seed))
        SIM.set_budget(300000)
        c = chains[k % 2]
        exc = r.choice([Interrupt, Interrupt, KeyboardInterrupt, MemoryError])
        opc = r.random() < .3
        ctx.sig(op, k)
        if op == "next":
            for _ in range(r.choice([1, 1, 2, 4])):
                s = c.next()
                keepslot(s)
                ctx.step()
        elif op == "int":
            at = At(r.choice([r.randint(1, 30), r.randint(1, 120), r.randint(1, 400)]) * (4 if opc else 1), exc, opc)
            s = c.next(at)
            keepslot(s)
            ctx.step()
            if s == "int":
                ints += 1
                audit(r)
                if r.random() < .5:
                    keepslot(c.next())
                    audit(r)
        elif op == "boom":
            c.arm = [r.choice(["proposal", "constraint", "accept", "bound"]), r.choice([1, 1, 2]), None]
            s = c.next()
            c.arm = None
            keepslot(s)
            ctx.step()
            if s == "boom":
                audit(r)
        elif op == "reiter":
            c.reiter()
        elif op == "read":
            audit(r)
        elif op == "readint":
            s = r.choice(slots)
            n = r.choice(names)
            if stats.usable(n, w, s.asg, parts) and stats.parent_chain_usable(n, w, s.plan, parts):
                at = At(r.randint(1, 60), exc, opc)
                try:
                    with at:
                        s.plan[n]
                except (Interrupt, KeyboardInterrupt, MemoryError):
                    ctx.fault("interrupt-while-reading")
                    ints += 1
                stats.read(ctx, w, s, n, parts)
                audit(r)
        elif op == "flipint":
            s = r.choice(slots)
            f = hist.flips_for(r.choice(hist.MOVES), w, s.asg, parts, r, s.prev)
            at = At(r.randint(1, 80), exc, opc)
            try:
                with at:
                    s.plan.flip(f)
            except (Interrupt, KeyboardInterrupt, MemoryError):
                ctx.fault("interrupt-in-move")
                ints += 1
            q = s.plan.flip(f)
            t = hist.Slot(q, hist.apply(s.asg, f), s.asg)
            hist.check_views(ctx, q, w, t.asg, parts, True, " (move repeated after an interrupt)")
            keepslot(t)
            audit(r)
        elif op == "seedint" and w.total() > 0:            # an all-empty map has no ideal population to aim at
            from gerrychain.tree import recursive_tree_part, bipartition_tree
            from functools import partial
            at = At(r.randint(1, 200), exc, opc)
            try:
                with at:
                    recursive_tree_part(init.graph.graph, parts, w.total() / len(parts), "pop", .9, method=partial(bipartition_tree, max_attempts=4))
            except (Interrupt, KeyboardInterrupt, MemoryError):
                ctx.fault("interrupt-in-seed-plan")
                ints += 1
            except Exception as e:
                if type(e).__name__ not in ("RuntimeError", "PopulationBalanceError", "BalanceError"):
                    raise
            audit(r)
        elif op == "enumint":
            from gerrychain.metagraph import all_valid_states_one_flip_away
            s = r.choice(slots)
            at = At(r.randint(1, 200), exc, opc)
            try:
                with at:
                    list(all_valid_states_one_flip_away(s.plan, [lambda p: True]))
            except (Interrupt, KeyboardInterrupt, MemoryError):
                ctx.fault("interrupt-in-enumeration")
                ints += 1
            audit(r)
        ctx.event(op, k)
    for c in chains:                                       # faults stop: each chain finishes within its steps
        for _ in range(c.n + 2):
            s = c.next()
            keepslot(s)
            if s == "end":
                break
        else:
            ctx.fail("steps", "a chain of %d steps does not end" % c.n)
        c.reiter()                                         # and restarts cleanly
        for j in range(c.n):
            s = c.next()
            ctx.check(isinstance(s, hist.Slot), "restart", lambda: "a restarted chain stopped after %d of %d steps" % (j, c.n))
        ctx.check(c.next() == "end", "restart", "a restarted chain does not end")
    audit(RealRandom(plan["seed"]), True)
    ctx.nontrivial = ints > 0


def simpler(plan):
    for n in range(4, plan["world"]["n"]):
        yield dict(plan, world=dict(plan["world"], n=n))
    for f, v in (("shape", "path"), ("labels", "int"), ("plabels", "int"), ("pops", "unit"), ("weight", False), ("k", 2)):
        if plan["world"][f] != v:
            yield dict(plan, world=dict(plan["world"], **{f: v}))
    for j in range(2):
        for f, v in (("kinds", "own"), ("cons", "own"), ("n", 3)):
            if plan[f][j] != v:
                l = list(plan[f])
                l[j] = v
                yield dict(plan, **{f: l})
