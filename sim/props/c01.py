"""C01: the chain protocol against a small reference machine, with every verdict, restart and fault scripted."""
from ..seam import RealRandom, SIM, Stream
from .. import world, hist
from ..core import seed_of
from ..boom import BOOM, boom

RUNS = {"quick": 7000, "thorough": 150000}
SHRINK = ["ops", "props"]
RULE = ("one run = one chain (N steps, 0-4 constraints in one of six forms) driven through a random schedule of next / restart / "
        "abandon / constraint-replacement / progress-bar operations, with a random verdict for every proposal, constraint and "
        "acceptance call and raising callbacks; non-trivial if it contains a rejected proposal, a non-accepted move and a restart, "
        "replacement or raised callback")
STATE = "hash of (counter, position of current plan, verdict kind) of the reference machine"
SIG = "hash of the complete sequence of callback and iteration events of the run"


def gen(rng, tier, i):
    props = []
    style = rng.choice(["mixed", "mixed", "reject", "still", "easy"])
    pv, pa = {"mixed": (.75, .6), "reject": (.5, .8), "still": (.9, .2), "easy": (.97, .95)}[style]
    for _ in range(rng.randint(0, 60)):
        # kind, seed, per-constraint validity, acceptance, fault
        props.append([rng.choice(["new", "new", "new", "same", "noop", "back"]), rng.randrange(1 << 30),
                      [rng.random() < pv for _ in range(4)], rng.random() < pa,
                      rng.choice([None] * 14 + ["proposal", "constraint", "accept"])])
    ops = []
    for _ in range(rng.randint(2, 12)):
        ops.append([rng.choice(["next"] * 4 + ["iter", "iter", "drain", "drain", "replace", "refuse", "bar", "len", "abandon"]),
                    rng.randint(1, 6), rng.randrange(1 << 30)])
    return dict(world=world.spec(rng, 3, 8, 2, 3, shapes=world.ISLANDS), N=rng.choice([0, 1, 1, 2, 3, 5, 8, 13, 20, 40]) if rng.random() > .008 else rng.choice([150, 600, 2500]), ncon=rng.randint(0, 4),
                form=rng.choice(["list", "tuple", "gen", "validator", "callable", "iter"]), props=props, ops=ops,
                npbool=rng.random() < .3, badinit=rng.random() < .1, falsy=rng.random() < .2,
                streak=[rng.randint(1, 12), rng.choice([30, 150, 400, 1200, 5000]), rng.choice(["same", "noop", "new"]), rng.randrange(4)]
                if rng.random() < .03 else None)


def execute(plan, ctx):
    import numpy
    from gerrychain import MarkovChain, Partition
    from gerrychain.constraints import Validator
    from gerrychain.updaters import cut_edges
    w = world.World(plan["world"])
    init = Partition(w.graph(), dict(w.start), {"cut_edges": cut_edges}, use_default_updaters=False)
    N = plan["N"]
    queue = [list(p) for p in plan["props"]]
    B = (lambda x: numpy.bool_(x)) if plan["npbool"] else bool
    m = dict(cur=None, counter=None, pend=None, inside=False, asked=0, gen=0, initver={}, boom=False, raised=None)

    def proposal(p):
        ctx.check(m["inside"], "stray-call", "proposal called outside a step")
        ctx.check(p is m["cur"], "wrong-source", "the proposal was not given the current plan")
        ctx.check(0 < m["counter"] < N, "overrun", "proposal called with %r of %d steps taken" % (m["counter"], N))
        q = m["pend"]
        if q is not None:
            ctx.check(not all(q["ver"]), "lost-step", "a valid proposal was dropped and another one requested")
            ctx.check(not q["acc"], "lost-step", "proposal repeated after the acceptance rule ran")
            ctx.fault("proposal-rejected")
        st, m["asked"] = plan["streak"], m["asked"] + 1
        if st and st[0] <= m["asked"] < st[0] + st[1] and m["cons"]:       # one invalid proposal after another
            e = [st[2], 3, [j != st[3] % len(m["cons"]) for j in range(4)], True, None]
            ctx.count("streak-proposals")
        else:
            e = queue.pop(0) if queue else ["new", 7, [True] * 4, True, None]
        r = RealRandom(e[1])
        m["pend"] = None
        if e[4] == "proposal":
            raise_it("proposal")
        if e[0] == "same":
            new = p
        elif e[0] == "back" and p.parent is not None:
            new = p.parent
        else:
            a = hist.read_asg(ctx, p, w)
            new = p.flip(hist.flips_for("noop" if e[0] == "noop" else r.choice(hist.MOVES), w, a, w.parts, r))
        m["pend"] = dict(plan=new, ver=e[2][:len(m["cons"])], verdicts=e, called=set(), acc=False, want=e[3], boom=e[4])
        ctx.event("proposal", e[0])
        ctx.sig("P", e[0])
        return new

    def raise_it(where):
        m["raised"] = where
        ctx.fault("callback-raised:" + where)
        raise boom(ctx, where)

    def mkcon(g, j):
        def con(p):
            if not m["inside"]:                                # construction or replacement: judged on the initial plan
                ctx.check(p is init, "wrong-initial", "constraints checked against another plan than the initial one")
                return B(m["initver"].get((g, j), True))
            ctx.check(g == m["gen"], "stale-constraint", "a replaced constraint is still asked")
            q = m["pend"]
            ctx.check(q is not None and p is q["plan"], "wrong-plan", "constraint called on a plan that is not the proposal")
            ctx.check(not q["acc"], "order", "constraint called after acceptance")
            if q["boom"] == "constraint":
                q["boom"] = None
                raise_it("constraint")
            q["called"].add(j)
            ctx.sig("C", j, q["ver"][j])
            return B(q["ver"][j])
        return con

    def accept(p):
        ctx.check(m["inside"], "stray-call", "acceptance rule called outside a step")
        q = m["pend"]
        ctx.check(q is not None and p is q["plan"], "wrong-plan", "acceptance rule called on another plan")
        ctx.check(all(q["ver"]), "invalid-shown", "an invalid proposal reached the acceptance rule: %r" % (q["ver"],))
        ctx.check(q["called"] == set(range(len(q["ver"]))), "unchecked",
                  lambda: "constraints %r were not asked" % (set(range(len(q["ver"]))) - q["called"],))
        ctx.check(not q["acc"], "twice", "acceptance rule asked twice about one proposal")
        q["acc"] = True
        if q["boom"] == "accept":
            raise_it("accept")
        ctx.sig("A", q["want"])
        return B(q["want"]) if not plan["falsy"] else (1 if q["want"] else 0)

    def form(cons):
        f = plan["form"]
        if f == "callable" and len(cons) == 1:
            return cons[0]
        return {"list": lambda: list(cons), "tuple": lambda: tuple(cons), "gen": lambda: (c for c in cons),
                "iter": lambda: iter(list(cons)), "validator": lambda: Validator(list(cons)),
                "callable": lambda: Validator(list(cons))}[f]()

    cons = [mkcon(0, j) for j in range(plan["ncon"])]
    m["cons"] = cons
    if plan["badinit"] and cons:
        m["initver"] = {(0, 0): False}
        try:
            MarkovChain(proposal, form(cons), accept, init, N)
            ctx.fail("bad-initial", "a chain was built on an initial plan that fails a constraint")
        except ValueError:
            ctx.count("initial-refused")
        m["initver"] = {}
    chain = MarkovChain(proposal, form(cons), accept, init, N)
    ctx.check(len(chain) == N, "len", "len(chain) is %r, N is %d" % (len(chain), N))
    started = False
    it = chain
    emitted = 0

    def do_next(src):
        """One step on the iterator, checked against the machine.  Returns False at the end."""
        m["inside"], m["pend"], m["raised"] = True, None, None
        SIM.set_budget(100000)
        ctx.step()
        try:
            x = next(src)
        except StopIteration:
            ctx.check(m["counter"] >= N, "short", "ended after %d of %d steps" % (m["counter"], N))
            ctx.check(m["pend"] is None, "lost-step", "ended while a proposal was pending")
            ctx.sig("end")
            return False
        except BOOM:
            ctx.check(m["raised"] is not None, "swallowed", "")
            ctx.sig("boom", m["raised"])
            return None
        finally:
            m["inside"] = False
        ctx.check(m["raised"] is None, "swallowed", "an error raised by the %s callback did not reach the caller" % m["raised"])
        ctx.check(m["counter"] < N, "long", "more than %d plans" % N)
        q = m["pend"]
        if m["counter"] == 0:
            ctx.check(q is None, "first", "the proposal ran before the initial plan was emitted")
            ctx.check(x is init, "first", "the first plan is not the initial plan")
            m["cur"] = init
        else:
            ctx.check(q is not None, "no-proposal", "a step without a proposal")
            ctx.check(all(q["ver"]), "invalid-emitted", "a step was counted for an invalid proposal")
            ctx.check(q["acc"], "unasked", "a step without asking the acceptance rule")
            if q["want"]:
                ctx.check(x is q["plan"], "wrong-emitted", "the accepted plan was not emitted")
            else:
                ctx.check(x is m["cur"], "wrong-emitted", "the current plan was not repeated after a non-acceptance")
                ctx.fault("move-not-accepted")
            m["cur"] = x
        m["counter"] += 1
        ctx.state([m["counter"], N, q is not None and q["want"], len(m["cons"])])
        ctx.event("emit", m["counter"])
        return True

    def restart():
        m.update(cur=init, counter=0, pend=None)

    for op, k, seed in [["iter", 1, 0]] + plan["ops"]:
        r = RealRandom(seed)
        SIM.stream = Stream(seed_of("op", seed))
        ctx.sig(op)
        if op in ("iter", "abandon"):
            m["inside"] = False
            it = iter(chain)
            restart()
            started = True
            if emitted:
                ctx.fault("restart")
            if op == "abandon":
                for _ in range(k):
                    do_next(it)
                it = iter(chain)
                restart()
                ctx.fault("abandon")
        elif op == "next":
            for _ in range(k):
                if do_next(it):
                    emitted += 1
        elif op == "drain":
            for _ in range(2 * N + 60):
                if do_next(it) is False:
                    break
                emitted += 1
            else:
                ctx.fail("long", "the chain does not end")
            ctx.check(do_next(it) is False, "long", "a finished chain went on")
        elif op == "bar":
            bar = iter(chain.with_progress_bar())
            restart()
            SIM.clock_mode = r.choice(["smooth", "stalled", "jumpy"])
            ctx.fault("clock:" + SIM.clock_mode)
            for _ in range(2 * N + 60):
                x = do_next(bar)
                if x is not True:
                    break
            it = chain                           # the chain is its own iterator
            if x is None:                        # the bar's generator ended by the error; continue on the chain
                ctx.count("bar-error")
        elif op == "len":
            ctx.check(len(chain) == N, "len", "len changed")
        elif op in ("replace", "refuse"):
            g = m["gen"] + 1 + seed
            new = [mkcon(g, j) for j in range(r.randint(1 if op == "refuse" else 0, 4))]
            if op == "refuse":
                m["initver"] = {(g, r.randrange(len(new))): False}
                try:
                    chain.constraints = form(new)
                    ctx.fail("bad-replacement", "constraints that the initial plan fails were taken")
                except ValueError:
                    ctx.fault("replacement-refused")
                m["initver"] = {}
            else:
                chain.constraints = form(new)
                m["gen"], m["cons"] = g, new
                ctx.fault("constraints-replaced")
    ctx.nontrivial = len([1 for k in ("proposal-rejected", "move-not-accepted") if k in ctx.faults]) == 2 and len(ctx.faults) > 2


def simpler(plan):
    for n in (0, 1, 2, 3, 5):
        if n < plan["N"]:
            yield dict(plan, N=n)
    for n in range(plan["ncon"]):
        yield dict(plan, ncon=n)
    for f, v in (("form", "list"), ("npbool", False), ("badinit", False), ("falsy", False), ("streak", None)):
        if plan[f] != v:
            yield dict(plan, **{f: v})
    if plan["world"]["n"] > 3:
        yield dict(plan, world=dict(plan["world"], n=3, shape="path", labels="int", plabels="int"))
