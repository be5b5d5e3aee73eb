"""C13: optimizers report the best plan of the run at every moment."""
from ..seam import RealRandom, SIM, Stream
from .. import world, hist, stats
from ..core import seed_of
from ..boom import BOOM

RUNS = {"quick": 5500, "thorough": 80000}
SHRINK = ["ops", "opts"]
RULE = ("one run = one world, 1-3 optimizers (short bursts, tilted and variable bursts, tilted runs, annealing, Gingleator; maximizing "
        "or minimizing; scores with ties; with and without progress bar) advanced by a seeded scheduler, with faults: a user function "
        "raises, the caller closes or drops the generator, a new run is started; the reported best is compared with the reference inside "
        "callbacks, at every yield and after every end; non-trivial if a run ended early or two runs were interleaved")
ASSUMPTIONS = ["at most one run of an optimizer object is active at a time", "score functions are functions of the plan"]

METHODS = ["bursts", "bursts", "tilted_bursts", "variable", "variable", "tilted", "anneal"]


class Halt(BaseException):
    pass


def gen(rng, tier, i):
    opts = [dict(method=rng.choice(METHODS), seed=rng.randrange(1 << 30), maximize=rng.random() < .5, bar=rng.random() < .2,
                 score=rng.choice(["cut", "size", "coarse", "popdev", "tuple", "const", "neg"]), ging=rng.random() < .2,
                 prop=rng.choice(["own", "own", "random", "slow", "any"]), con=rng.choice(["none", "some", "iter"]), long=rng.random() < .01) for _ in range(rng.choice([1, 1, 2, 3]))]
    ops = [[rng.choice(["next"] * 14 + ["close", "boom", "boom", "halt", "restart", "drain"]), rng.randrange(len(opts)), rng.randrange(1 << 30)]
           for _ in range(rng.randint(8, 40))]
    return dict(world=world.spec(rng, 4, 10, 2, 4, shapes=world.ISLANDS, pops=["unit", "small", "quarter", "census"], wide=.02), opts=opts, ops=ops)


def shares(w, a, parts):
    out = []
    for s in w.level(a, parts).values():
        out.append((sum(w.attr[v]["dem"] for v in s) + 1) / (sum(w.attr[v]["dem"] + w.attr[v]["rep"] for v in s) + 2))
    return out


def _next(x, t):
    return max([i for i in x if i < t], default=None)


def _close(x, t):
    n = _next(x, t)
    return sum(i >= t for i in x) + ((n - t + .1) * 10 if n is not None and n >= t - .1 else 0)


GSCORES = dict(                                           # the documented formulas
    num_opportunity_dists=lambda x, t: sum(i >= t for i in x),
    reward_partial_dist=lambda x, t: sum(i >= t for i in x) + (_next(x, t) or 0),
    reward_next_highest_close=_close,
    penalize_maximum_over=lambda x, t: sum(i >= t for i in x) + (1 - max(x)) / (1 - t) if any(i >= t for i in x) else 0,
    penalize_avg_over=lambda x, t: sum(i >= t for i in x) + (1 - sum(i for i in x if i >= t) / sum(i >= t for i in x)) / (1 - t) if any(i >= t for i in x) else 0)


class Run:
    """One optimizer with its reference."""

    def __init__(self, ctx, w, init, iasg, o, k):
        from gerrychain.optimization import SingleMetricOptimizer, Gingleator
        self.ctx, self.w, self.o, self.k = ctx, w, o, k
        self.r = RealRandom(seed_of("opt", o["seed"]))
        self.stream = Stream(seed_of("optdraws", o["seed"]))
        self.init, self.iasg = init, iasg
        self.parts = w.parts
        self.refused = 0
        self.arm = None                                   # (where, countdown, exception)
        self.active = self.gen = None
        self.maximize = True if o["ging"] else o["maximize"]
        L = hist.lib_proposals()

        def proposal(p):
            self.tick("proposal")
            self.proposed += 1
            if self.out:
                ctx.check(hist.read_asg(ctx, p, w) == self.out[-1][0], "state", "a proposal was asked from a plan that was not the last one")
            if o["prop"] == "own" or not p["cut_edges"]:
                return p.flip(hist.flips_for(self.r.choice(hist.MOVES), w, hist.read_asg(ctx, p, w), self.parts, self.r))
            return L[o["prop"]](p)

        def con(p):
            self.tick("constraint")
            if o["con"] == "none":
                return True
            a = hist.read_asg(ctx, p, w)
            ok = a == iasg or any(a == x for x, _ in self.out) or hash_ok(a) or self.refused > 30
            self.refused = 0 if ok else self.refused + 1   # (a constraint that relents: every run can progress)
            return ok

        def hash_ok(a):
            return len(w.cut(a)) % 5 != 3
        self.hash_ok = hash_ok

        def score(p):
            self.tick("score")
            return self.ref_score(hist.read_asg(ctx, p, w))
        cons = {"none": [con], "some": con, "iter": iter([con])}[o["con"]]
        if o["ging"]:
            self.gscore = self.r.choice(sorted(GSCORES))
            self.gthr = self.r.choice([.25, .375, .5, .5, .625])
            fn = None if self.gscore == "num_opportunity_dists" else getattr(Gingleator, self.gscore)
            if self.r.random() < .5:
                self.opt = Gingleator(proposal, cons, init, minority_perc_col="share", threshold=self.gthr, score_function=fn)
            else:                                         # the optimizer derives the shares itself
                self.opt = Gingleator(proposal, cons, init, minority_pop_col="gmin", total_pop_col="gtot", threshold=self.gthr, score_function=fn)
        else:
            self.opt = SingleMetricOptimizer(proposal, cons, init, score, maximize=o["maximize"])
        self.out, self.proposed = [], 0
        self.last = None                                  # (best_part, best_score) at the end of the last run

    def tick(self, where):
        if self.active and self.out:
            self.invariant("inside " + where)
        if self.arm and self.arm[0] == where:
            self.arm[1] -= 1
            if self.arm[1] <= 0:
                e, self.arm = self.arm[2], None
                self.raised = e
                raise e()

    def ref_score(self, a):
        w, s = self.w, self.o["score"]
        if s == "cut":
            return len(w.cut(a))
        if s == "size":
            return sum(1 for v in a if a[v] == self.parts[0])
        if s == "coarse":
            return len(w.cut(a)) // 3
        if s == "const":
            return 0
        if s == "neg":
            return -1.5 * len(w.cut(a)) - 1
        if s == "tuple" and self.o["method"] != "anneal":
            return (len(w.cut(a)) // 2, sum(1 for v in a if a[v] == self.parts[-1]))
        return max(abs(sum(w.attr[v]["pop"] for v in w.nodes if a[v] == p) - w.total() / len(self.parts)) for p in self.parts)

    def score_of(self, part, a):
        if self.o["ging"]:
            keep, self.arm = self.arm, None
            try:
                x = self.opt.score(part)
                e = GSCORES[self.gscore](sorted(shares(self.w, hist.read_asg(self.ctx, part, self.w), self.parts)), self.gthr)
                self.ctx.check(abs(float(x) - e) < 1e-9, "gingles-score", lambda: "%s is %r, by its formula %r" % (self.gscore, x, e))
                return x
            finally:
                self.arm = keep
        return self.ref_score(a)

    def better(self, x, y):
        return x > y if self.maximize else x < y

    def start(self):
        o, opt, r = self.o, self.opt, self.r
        m = o["method"]
        long = o.get("long")
        n = r.randint(1, 12) if not long else r.randint(100, 400)
        bar = dict(with_progress_bar=o["bar"])
        self.bl, self.expected = None, n
        if m in ("bursts", "tilted_bursts"):
            self.bl, nb = (r.randint(1, 5), r.randint(1, 5)) if not long else (r.choice([3, 40]), r.choice([8, 30]))
            self.expected = self.bl * nb
            self.gen = opt.short_bursts(self.bl, nb, accept=self.accept, **bar) if m == "bursts" else opt.tilted_short_bursts(self.bl, nb, r.choice([0, .3, 1]), **bar)
        elif m == "variable":
            self.expected = n = r.randint(1, 24) if not long else 400
            self.gen = opt.variable_length_short_bursts(n, r.choice([0, 1, 1, 2]), accept=self.accept, **bar)
        elif m == "tilted":
            self.gen = opt.tilted_run(n, r.choice([0, .3, 1]), **bar)
        else:
            self.gen = opt.simulated_annealing(n, opt.jumpcycle_beta_function(2, 3), r.choice([0, .5, 2]), **bar)
        self.out, self.starts, self.proposed = [], [], 0
        self.active = True
        self.ctx.count("run:" + m)

    def accept(self, p):
        self.tick("accept")
        return self.r.random() < .7

    def reference_best(self):
        """(assignment, score) over the initial plan and everything yielded; latest wins ties."""
        best = (self.iasg, self.iscore)
        for a, s in self.out:
            if not self.better(best[1], s):
                best = (a, s)
        return best

    def invariant(self, where):
        ctx, opt = self.ctx, self.opt
        bp, bs = opt.best_part, opt.best_score
        want = self.reference_best()
        ctx.check(bp is not None, "none", "no best plan reported %s" % where)
        a = hist.read_asg(ctx, bp, self.w)
        ctx.check(bs == want[1], "best-score", lambda: "%s: best score %r, but the best of the run is %r (yielded %r)" % (where, bs, want[1], [s for _, s in self.out]))
        ctx.check(a == want[0], "best-part", lambda: "%s: best plan %r, expected %r (score %r)" % (where, a, want[0], bs))

    def settle(self, where):
        """after the run ended in any way"""
        if self.out or self.begun:
            self.invariant(where)
        elif self.opt.best_part is not None:
            a = hist.read_asg(self.ctx, self.opt.best_part, self.w)
            self.ctx.check(self.score_of(self.opt.best_part, a) == self.opt.best_score, "pair", lambda: "%s: best plan scores %r, reported %r" % (
                where, self.score_of(self.opt.best_part, a), self.opt.best_score))

    def next(self):
        """advance one step; returns 'plan', 'end', 'boom'"""
        ctx, w = self.ctx, self.w
        keep, SIM.stream = SIM.stream, self.stream
        SIM.set_budget(200000)
        n0 = self.proposed
        self.raised = None
        self.iscore = self.score_of(self.init, self.iasg)
        self.begun = bool(self.out)
        try:
            part = next(self.gen)
        except StopIteration:
            ctx.check(self.raised is None, "swallowed", "an error in a user function ended the run silently")
            ctx.check(len(self.out) == self.expected, "count", lambda: "%s yielded %d plans, requested %d" % (self.o["method"], len(self.out), self.expected))
            self.active = False
            self.settle("after the end")
            self.gen = None
            return "end"
        except BOOM + (Halt,) as e:
            ctx.check(type(e) is self.raised, "raised", "unexpected")
            ctx.fault("raised:" + type(e).__name__)
            self.active = False
            self.settle("after an error")
            # the generator is finished
            try:
                next(self.gen)
                ctx.fail("resumed", "a run that failed yielded another plan")
            except StopIteration:
                pass
            self.settle("after an error")
            self.gen = None
            return "boom"
        finally:
            SIM.stream = keep
        ctx.check(self.raised is None, "swallowed", "an error in a user function was swallowed")
        a = hist.read_asg(ctx, part, w)
        s = self.score_of(part, a)
        fresh = self.proposed == n0
        if fresh:                                          # no proposal was made: this is the first plan of a burst
            before = self.reference_best() if self.out else (self.iasg, None)
            ctx.check(a == before[0], "burst-start", lambda: "a burst started from %r, best so far is %r" % (a, before[0]))
            self.starts.append(len(self.out))
        else:
            ctx.check(self.out, "first", "the run does not begin with the initial plan")
        self.out.append((a, s))
        ctx.check(len(self.out) <= self.expected, "count", lambda: "more than %d plans" % self.expected)
        if self.bl is not None:
            ctx.check(fresh == ((len(self.out) - 1) % self.bl == 0), "burst-length", lambda: "plan %d %s a burst start (length %d)" % (len(self.out), "is" if fresh else "is not", self.bl))
        elif self.o["method"] == "variable":
            st = self.starts
            g = [y - x for x, y in zip(st, st[1:])]
            ctx.check((not g or g[0] == 2) and all(y in (x, 2 * x) for x, y in zip(g, g[1:])), "burst-length", lambda: "bursts start at %r" % (st,))
            ctx.check(fresh or len(self.out) - 1 - st[-1] < (2 * g[-1] if g else 2), "burst-length", lambda: "burst starting at %d does not end" % st[-1])
        else:
            ctx.check(fresh == (len(self.out) == 1), "restart", "the run restarted")
        self.invariant("at the yield")
        return "plan"


def execute(plan, ctx):
    from gerrychain import Partition
    w = world.World(plan["world"])
    ups = stats.make(w, ["cut_edges", "pop"])
    ups["gmin"] = lambda p: {d: sum(w.attr[v]["dem"] for v in s) + 1 for d, s in p.parts.items()}
    ups["gtot"] = lambda p: {d: sum(w.attr[v]["dem"] + w.attr[v]["rep"] for v in s) + 2 for d, s in p.parts.items()}
    ups["share"] = lambda p: {d: (sum(w.attr[v]["dem"] for v in s) + 1) / (sum(w.attr[v]["dem"] + w.attr[v]["rep"] for v in s) + 2) for d, s in p.parts.items()}
    init = Partition(w.graph(), dict(w.start), ups, use_default_updaters=False)
    runs = []
    for k, o in enumerate(plan["opts"]):
        runs.append(Run(ctx, w, init, dict(w.start), o, k))
    ctx.sig(w.edges, plan["opts"])
    last, switches, early = None, 0, 0
    for op, k, seed in plan["ops"]:
        if not runs:
            break
        run = runs[k % len(runs)]
        r = RealRandom(seed)
        ctx.sig(op, k % len(runs))
        if last is not None and last is not run:
            switches += 1
        last = run
        if run.gen is None:
            run.start()
        if op == "close":
            if run.out:
                run.begun = True
                run.gen.close()
                run.active = False
                run.settle("after closing the run")
                ctx.fault("generator-closed")
                early += 1
            run.gen = None
            continue
        if op == "restart":
            if run.out:
                ctx.fault("run-abandoned")
                early += 1
            run.gen = None
            run.start()
        if op in ("boom", "halt"):
            run.arm = [r.choice(["proposal", "constraint", "accept"] + ([] if run.o["ging"] else ["score", "score"])), r.choice([1, 1, 2, 3, 6]), r.choice(BOOM) if op == "boom" else Halt]
        for _ in range((500 if run.o.get("long") else r.randint(5, 20)) if op == "drain" or run.o.get("long") and op == "next" else r.choice([1, 1, 2, 3])):
            res = run.next()
            ctx.step()
            ctx.event(run.k, res, run.opt.best_score)
            if res == "boom":
                early += 1
            if res != "plan":
                break
            ctx.state([w.edges, run.out[-1][0]])
    ctx.nontrivial = early > 0 or switches > 0


def probe_variable():
    """Stuck from the start: does the burst length ever grow?"""
    from gerrychain import Partition
    from gerrychain.optimization import SingleMetricOptimizer
    w = world.World(dict(shape="path", n=6, k=2, labels="int", plabels="int", pops="unit", weight=False, seed=3))
    p0 = Partition(w.graph(), dict(w.start), stats.make(w, ["cut_edges"]), use_default_updaters=False)
    r = RealRandom(5)
    n = [0]

    def proposal(p):
        n[0] += 1
        return p.flip({0: w.parts[n[0] % 2]})
    o = SingleMetricOptimizer(proposal, lambda p: True, p0, lambda p: 0 if p is p0 else -1)
    starts, seen = [], -1
    for i, p in enumerate(o.variable_length_short_bursts(200, 1)):
        if n[0] == seen or i == 0:
            starts.append(i)
        seen = n[0]
    return max([b - a for a, b in zip(starts, starts[1:])] or [0]) <= 2


KNOWN = {"variable-bursts-never-grow": probe_variable}


def simpler(plan):
    for n in range(4, plan["world"]["n"]):
        yield dict(plan, world=dict(plan["world"], n=n))
    for f, v in (("shape", "path"), ("labels", "int"), ("plabels", "int"), ("pops", "unit"), ("weight", False), ("k", 2)):
        if plan["world"][f] != v:
            yield dict(plan, world=dict(plan["world"], **{f: v}))
    for j, o in enumerate(plan["opts"]):
        for f, v in (("bar", False), ("ging", False), ("prop", "own"), ("con", "none"), ("score", "cut")):
            if o[f] != v:
                yield dict(plan, opts=plan["opts"][:j] + [dict(o, **{f: v})] + plan["opts"][j + 1:])
