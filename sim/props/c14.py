"""C14: acceptance rules, with the deciding draw placed at, just below and just above the stated rate."""
import math
from ..seam import RealRandom, SIM, Stream, ONE_MINUS
from .. import world, hist, stats
from ..core import seed_of
from ..boom import BOOM, boom

RUNS = {"quick": 7000, "thorough": 100000}
SHRINK = ["ops", "runs"]
RULE = ("one run = one world and several acceptance situations: cut-edge acceptance on plans with arbitrary histories (no boundary, "
        "erased ancestry) and in chains, tilted runs, tilted bursts and annealing runs interleaved on the same plan; before each step the "
        "simulator fixes the uniform draw at 0, at the largest value below 1, exactly at the rate, or just beside it, and predicts the "
        "verdict; user scores and schedules may raise; non-trivial if both verdicts occurred and a draw was placed next to a rate below 1")
ASSUMPTIONS = ["draws exactly at the rate only where the rate is computed exactly (tilted p, cut-edge ratios k/2^m, annealing rates that are 0); otherwise 1e-9 relative offset"]
STUB = ["the uniform draw of the acceptance step is fixed by the simulator"]


def gen(rng, tier, i):
    runs = [dict(kind=rng.choice(["tilted", "tilted", "tbursts", "anneal", "anneal", "anneal", "cutchain"]), seed=rng.randrange(1 << 30), maximize=rng.random() < .5,
                 p=rng.choice([0, .125, .1, .3, .5, .9, 1]), mag=rng.choice([0, .25, 1, 1, 3, 1000]), scale=rng.choice([1, 1, .5, .1, 1e6, 1e-3]),
                 beta=rng.choice(["table", "table", "one", "neglike", "jump", "linear", "linjump", "logit", "logitjump"]),
                 dur=[rng.choice([0, 1, 2, 3, 5]), rng.choice([0, 1, 2, 3, 4, 7]), rng.choice([0, 1, 2, 4])], n=rng.randint(2, 14) if rng.random() > .01 else 300, bl=rng.choice([1, 2, 3, 4, 6]), bar=rng.random() < .15, idx=rng.choice(["step", "step", "my_step"]))
            for _ in range(rng.randint(1, 3))]
    ops = [[rng.choice(["run"] * 8 + ["cut"] * 3 + ["move", "erase", "boom"]), rng.randrange(8), rng.randrange(1 << 30)] for _ in range(rng.randint(6, 30))]
    return dict(world=world.spec(rng, 4, 10, 2, 4, shapes=world.ISLANDS, wide=.02), runs=runs, ops=ops)


def draw_beside(r, t, exact):
    """(u, expected) for a rate t."""
    c = r.choice(["zero", "top", "at", "below", "above", "any"])
    if t >= 1:
        u = {"zero": 0.0, "top": ONE_MINUS}.get(c, r.random())
    elif c == "zero":
        u = 0.0
    elif c == "top":
        u = ONE_MINUS
    elif c == "at" and exact:
        u = float(t)
    elif c == "below":
        u = math.nextafter(t, 0) if exact else t * (1 - 1e-9)
    elif c in ("above", "at"):
        u = math.nextafter(t, 1) if exact else t * (1 + 1e-9)
    else:
        u = r.random()
    u = min(max(u, 0.0), ONE_MINUS)
    if not exact and t < 1 and abs(u - t) < t * 1e-10:
        u = 0.0
    return u, (u < t), c


def schedule(kind, t, hot, ramp, cold):
    """The documented hot/cold cycles: 0 while hot, 1 while cold, a linear or logit ramp between; *jump cycles go straight back."""
    if kind == "jump":
        return 0.0 if t % (hot + ramp) < hot else 1.0
    length = hot + ramp + cold + (0 if kind.endswith("jump") else ramp)

    def up(x):
        if kind.startswith("lin"):
            return x
        return 0.0 if x <= 0 else min(1.0, max(0.0, (math.log(x / (1 - x)) + 5) / 10))
    t = t % length
    if t < hot:
        return 0.0
    if t < hot + ramp:
        return up((t - hot) / ramp)
    if t < hot + ramp + cold:
        return 1.0
    return 1 - up((t - hot - ramp - cold) / ramp)


class Opt:
    def __init__(self, ctx, w, init, o):
        from gerrychain.optimization import SingleMetricOptimizer
        from gerrychain import MarkovChain
        from gerrychain.accept import cut_edge_accept
        self.ctx, self.w, self.o, self.init = ctx, w, o, init
        self.r = RealRandom(seed_of("o", o["seed"]))
        self.iasg = dict(w.start)
        self.armed = False
        self.prop_asg = None
        self.betas = []
        self.table = [self.r.choice([0, .5, 1, 2, .1]) for _ in range(512)]

        def proposal(p):
            a = hist.read_asg(ctx, p, w)
            if o["kind"] == "tbursts":
                self.cur = a                     # which plan a burst starts from is C13's business
            ctx.check(a == self.cur, "state", "the chain is in another plan than it yielded")
            while True:
                f = hist.flips_for(self.r.choice(hist.MOVES), w, a, w.parts, self.r)
                b = hist.apply(a, f)
                if b != a:
                    break
            self.prop_asg = b
            self.plan_draw(a, b)
            return p.flip(f)
        if o["kind"] == "cutchain":
            self.make = lambda: iter(MarkovChain(proposal, lambda p: True, cut_edge_accept, init, o["n"]))
        else:
            def score(p):
                if self.armed:
                    self.armed = False
                    raise boom(ctx)
                return self.score(hist.read_asg(ctx, p, w))
            opt = SingleMetricOptimizer(proposal, lambda p: True, init, score, maximize=o["maximize"], step_indexer=o["idx"])
            if o["kind"] == "tilted":
                self.make = lambda: opt.tilted_run(o["n"], o["p"], with_progress_bar=o["bar"])
            elif o["kind"] == "tbursts":
                self.make = lambda: opt.tilted_short_bursts(o["bl"], -(-o["n"] // o["bl"]), o["p"], with_progress_bar=o["bar"])
            else:
                hot, ramp, cold = o["dur"]
                if o["beta"].startswith("logit"):
                    ramp = max(1, ramp)                      # a ramp of no steps has no midpoint
                elif hot + ramp + cold == 0 or (o["beta"] == "jump" and hot + ramp == 0):
                    hot = 1
                own = {"table": lambda t: self.table[t % 512], "one": lambda t: 1, "neglike": lambda t: self.table[(-1 - t) % 512]}
                lib = {"jump": lambda: opt.jumpcycle_beta_function(hot, ramp), "linear": lambda: opt.linearcycle_beta_function(hot, ramp, cold),
                       "linjump": lambda: opt.linear_jumpcycle_beta_function(hot, ramp, cold), "logit": lambda: opt.logitcycle_beta_function(hot, ramp, cold),
                       "logitjump": lambda: opt.logit_jumpcycle_beta_function(hot, ramp, cold)}
                self.base = own.get(o["beta"]) or (lambda t: schedule(o["beta"], t, hot, ramp, cold))
                base = own.get(o["beta"]) or lib[o["beta"]]()

                def beta(t):
                    self.betas.append(t)
                    b = base(t)
                    ctx.check(abs(b - self.base(t)) < 1e-9, "schedule", lambda: "%s schedule (hot %d, ramp %d, cold %d) at %d: %r, documented %r" % (
                        o["beta"], hot, ramp, cold, t, b, self.base(t)))
                    return b
                self.make = lambda: opt.simulated_annealing(o["n"], beta, o["mag"], with_progress_bar=o["bar"])
        self.gen = None

    def score(self, a):
        return self.o["scale"] * (len(self.w.cut(a)) - 3)

    def restart(self):
        self.gen = self.make()
        self.out, self.cur, self.accepted, self.prop_asg = 0, self.iasg, 0, None

    def plan_draw(self, a, b):
        """Fix the draw for the move a -> b and predict."""
        o, r = self.o, self.r
        if o["kind"] == "cutchain":
            x, y = len(self.w.cut(a)), len(self.w.cut(b))
            t = 1.0 if y == 0 else min(1.0, x / y)
            exact = y == 0 or t == 1 or (y & (y - 1)) == 0
        else:
            d = self.score(b) - self.score(a)
            worse = -d if o["maximize"] else d
            if o["kind"] != "anneal":
                t, exact = (1.0 if worse <= 0 else float(o["p"])), True
            else:
                try:
                    t = 1.0 if worse <= 0 else math.exp(-self.base(self.accepted + 1) * o["mag"] * worse)
                except OverflowError:
                    t = 1.0
                exact = t >= 1
                if worse > 0 and -self.base(self.accepted + 1) * o["mag"] * worse < -1000:
                    t, exact = 0.0, True                 # no draw is below it, not even 0
                elif not exact and (t < 1e-300 or t > 1 - 1e-12):
                    exact = None
                self.betas.clear()
        if exact is None:
            u, self.want, c = r.choice([(.5, .5 < t, "any"), (.999, .999 < t, "any"), (1e-9, 1e-9 < t, "any")])
        else:
            u, self.want, c = draw_beside(r, t, exact)
        self.t, self.u = t, u
        if t < 1:
            self.ctx.fault("draw-placed:" + c)
        else:
            self.ctx.count("rate-one")
        SIM.stream.script = [u] * 64

    def step(self):
        ctx, w = self.ctx, self.w
        if self.gen is None:
            self.restart()
        SIM.stream = Stream(seed_of("s", self.o["seed"]))
        SIM.set_budget(100000)
        self.prop_asg = None
        armed = self.armed
        try:
            p = next(self.gen)
        except StopIteration:
            n = self.o["n"] if self.o["kind"] != "tbursts" else -(-self.o["n"] // self.o["bl"]) * self.o["bl"]
            ctx.check(self.out == n, "steps", lambda: "%d of %d steps" % (self.out, n))
            self.gen = None
            return None
        except BOOM:
            ctx.fault("score-raised")
            self.gen = None
            return None
        self.armed = False
        self.out += 1
        a = hist.read_asg(ctx, p, w)
        if self.out == 1:
            ctx.check(a == self.iasg, "first", "the initial plan was not accepted")
            return None
        if self.o["kind"] == "tbursts" and (self.out - 1) % self.o["bl"] == 0 and self.prop_asg is None:
            self.cur = a                         # a new burst begins with the plan it starts from
            ctx.count("burst")
            return None
        moved = a != self.cur
        ctx.check(self.prop_asg is not None and a in (self.cur, self.prop_asg), "plan", "the plan yielded is neither the current nor the proposed one")
        ctx.check(moved == self.want, "verdict:" + self.o["kind"], lambda: "%s %s a move at rate %.17g with the draw %.17g (old score %r, new %r, accepted before: %d, schedule asked at %r, mag %r)" % (
            self.o["kind"], "accepted" if moved else "refused", self.t, self.u, self.score(self.cur), self.score(self.prop_asg), self.accepted, self.betas, self.o["mag"]))
        if self.o["kind"] == "anneal":
            ctx.check(all(b == self.accepted + 1 for b in self.betas), "index", lambda: "schedule asked at %r for move %d" % (self.betas, self.accepted + 1))
        self.cur = a
        self.accepted += moved
        ctx.event(self.o["kind"], moved)
        ctx.sig(moved, self.t >= 1)
        return moved


def execute(plan, ctx):
    from gerrychain import Partition
    from gerrychain.accept import cut_edge_accept, always_accept
    w = world.World(plan["world"])
    init = Partition(w.graph(), dict(w.start), stats.make(w, ["cut_edges"]), use_default_updaters=False)
    runs = [Opt(ctx, w, init, o) for o in plan["runs"]]
    slots = [hist.Slot(Partition(w.graph(), dict(w.start), stats.make(w, ["cut_edges"]), use_default_updaters=False), dict(w.start))]
    ctx.sig(w.edges, plan["runs"])
    seen = set()
    for op, k, seed in plan["ops"]:
        r = RealRandom(seed)
        s = r.choice(slots[-4:])
        if op == "move":
            f = hist.flips_for(r.choice(hist.MOVES), w, s.asg, w.parts, r, s.prev)
            slots.append(hist.Slot(s.plan.flip(f), hist.apply(s.asg, f), s.asg))
        elif op == "erase":
            s.plan.parent = None
            ctx.fault("ancestry-erased")
        elif op == "cut":
            f = hist.flips_for(r.choice(hist.MOVES), w, s.asg, w.parts, r, s.prev)
            t0 = s.asg
            q = s.plan.flip(f)
            a = hist.apply(s.asg, f)
            if r.random() < .15:
                q.parent = None
            x, y = len(w.cut(t0)), len(w.cut(a))
            t = 1.0 if q.parent is None or y == 0 else min(1.0, x / y)
            for _ in range(3):
                u, want, c = draw_beside(r, t, t == 1 or (y & (y - 1)) == 0)
                SIM.stream = Stream(seed)
                SIM.stream.script = [u] * 16
                got = cut_edge_accept(q)
                ctx.check(bool(got) == want, "verdict:cut", lambda: "cut_edge_accept says %r: cut edges %d -> %d, draw %.17g" % (got, x, y, u))
                seen.add(want)
                if t < 1:
                    ctx.fault("draw-placed:" + c)
            ctx.check(always_accept(q) is True, "always", "always_accept refused")
            slots.append(hist.Slot(q, a, t0))
            ctx.step()
        elif runs:
            run = runs[k % len(runs)]
            if op == "boom":
                run.armed = True
            for _ in range(r.choice([1, 2, 4, 8]) * (20 if run.o["n"] > 99 else 1)):
                m = run.step()
                ctx.step()
                if m is not None:
                    seen.add(m)
        ctx.sig(op, k)
        ctx.state([w.edges, [run.cur if run.gen else None for run in runs]])
    ctx.nontrivial = len(seen) == 2 and bool(ctx.faults)


def simpler(plan):
    for n in range(4, plan["world"]["n"]):
        yield dict(plan, world=dict(plan["world"], n=n))
    for f, v in (("shape", "path"), ("labels", "int"), ("plabels", "int"), ("pops", "unit"), ("weight", False), ("k", 2)):
        if plan["world"][f] != v:
            yield dict(plan, world=dict(plan["world"], **{f: v}))
    for j, o in enumerate(plan["runs"]):
        for f, v in (("bar", False), ("scale", 1), ("mag", 1), ("beta", "one"), ("idx", "step"), ("maximize", True)):
            if o[f] != v:
                yield dict(plan, runs=plan["runs"][:j] + [dict(o, **{f: v})] + plan["runs"][j + 1:])
