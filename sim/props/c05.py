"""C05: the same seeded program in two process histories: observations and draws must be identical."""
import gc, json, os, subprocess, sys
from ..seam import RealRandom, SIM, Stream
from .. import world, stats
from ..core import seed_of, canon, Skip
from . import c04

RUNS = {"quick": 1400, "thorough": 30000}
SHRINK = ["stages", "prior"]
RULE = ("one run = one program that calls random.seed and then runs 1-3 stages (flip chains, recombination, reversible and spectral chains, optimizers, "
        "diversity collectors, enumerations, plan histories, seed-plan generators, random initial plans, grids), executed twice with one hash seed: once plainly, "
        "once under perturbation - jumping or stalled clock, other entropy, other numpy generator state, unrelated work before (other worlds, "
        "half-consumed chains kept alive), another heap layout, other garbage-collection timing, progress bars, and for some runs a fresh interpreter with "
        "other entropy and clock at import; every observation, the number of draws and the final generator state must be identical; non-trivial if perturbed")
ASSUMPTIONS = ["both executions use one hash seed", "prior work shares no objects with the program"]
STUB = ["numpy's global generator state", "unseeded random.Random and SystemRandom (simulated entropy)"]

KINDS = c04.KINDS + ["recom", "recom", "seed", "seed", "initial", "initial", "recomcls"]


def gen(rng, tier, i):
    sp = world.spec(rng, 4, rng.choice([6, 9, 12, 16]), 2, 4, wide=.02)

    def a():
        return dict(kind=rng.choice(KINDS), seed=rng.randrange(1 << 30), world=0, root=rng.choice(["shared", "own"]), ups="shared",
                    graph=rng.choice(["shared", "own"]), steps=rng.choice([3, 6, 10, 25] * 20 + [200]), boom=rng.choice([None, None, None, None, rng.randint(2, 12)]))
    stages = [a() for _ in range(rng.randint(1, 3))]
    prior = [a() for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    work = None                                          # much earlier work, ending just short of a round number of steps
    if rng.random() < .3:
        kind = rng.choice(["flips", "flips", "recom"])
        work = [kind, max(1, rng.choice([32, 64, 100, 128, 200, 256, 500, 512, 1000, 1000, 1024] if kind == "flips" else [10, 16, 20, 32, 50, 64, 100, 128]) - rng.choice([0, 1, 2, 4, 6, 8, 12, 20, 30]))]
    p = dict(clock=rng.choice(["smooth", "jumpy", "jumpy", "stalled"]), epoch=rng.choice([0, 1, 3.1e9]), entropy=rng.randrange(1 << 30),
             numpy=rng.randrange(1 << 30), gc=rng.choice([None, "off", 1, 7, 50]), heap=rng.choice([0, 0, 300, 3000]), bar=rng.random() < .4,
             fresh=rng.random() < .08, keep=rng.random() < .5, drew=rng.choice([0, 1, 17]), work=work)
    return dict(worlds=[sp], prior_world=world.spec(rng, 4, 9, 2, 4), stages=stages, prior=prior, perturb=p, pseed=rng.randrange(1 << 40),
                stats=rng.sample(stats.NAMES, rng.randint(2, 9)))


def extra(S, spec):
    """Kinds of stage that C04 does not have."""
    from functools import partial
    from gerrychain import Partition
    from gerrychain import tree as T
    from gerrychain.proposals import ReCom
    from gerrychain import MarkovChain
    r = RealRandom(spec["seed"])
    w = S.worlds[0]
    g = S.graphs[0]
    tot = w.total()
    if tot <= 0:
        return
    if spec["kind"] == "initial":
        for _ in range(max(1, spec["steps"] // 3)):
            meth = r.choice([T.recursive_tree_part, partial(T.recursive_tree_part, node_repeats=r.randint(1, 3), method=partial(T.bipartition_tree, max_attempts=8)),
                             partial(T.recursive_seed_part, method=partial(T.bipartition_tree, max_attempts=8)),
                             partial(T.recursive_tree_part, method=partial(T.bipartition_tree_random, max_attempts=8))])
            if meth is T.recursive_tree_part:
                meth = partial(meth, method=partial(T.bipartition_tree, max_attempts=8))
            try:
                p = Partition.from_random_assignment(g, len(w.parts), .9, "pop", dict(S.ups), use_default_updaters=False, method=meth)
            except Exception as e:
                yield type(e).__name__
                continue
            yield [sorted(map(repr, p.assignment.items())), stats.freeze(p["cut_edges"])]
    else:
        p = S.roots[0]
        if not w.contiguous(w.start, w.parts) or len(w.parts) < 2:
            return
        rc = ReCom("pop", tot / len(w.parts), .9, method=partial(T.bipartition_tree, max_attempts=8, allow_pair_reselection=True))
        for q in MarkovChain(rc, [], lambda p: True, p, spec["steps"]):
            yield sorted(map(repr, q.assignment.items()))


def program(plan, bar):
    S = c04.Setup(plan)
    obs = []
    st = SIM.stream
    import random
    random.seed(plan["pseed"])
    for k, a in enumerate(plan["stages"]):
        a = dict(a, bar=bar)
        g = extra(S, a) if a["kind"] in ("initial", "recomcls") else c04.actor(S, k, a, lambda where: None)
        n = len(obs)
        c04.step(g, obs, st)
        while obs[-1][0] == "o":
            c04.step(g, obs, st)
    obs.append(["state", canon(list(random.getstate()[1])), st.n])
    return obs


def plain(plan):
    SIM.set_budget(3 * 10 ** 6)
    SIM.stream = Stream(1)
    return program(plan, False)


def disturb(plan, kept):
    """Everything that must not matter."""
    import numpy
    p = plan["perturb"]
    r = RealRandom(seed_of("disturb", plan["seed"]))
    SIM.clock, SIM.clock_mode = p["epoch"], p["clock"]
    SIM.entropy = RealRandom(p["entropy"])
    numpy.random.seed(p["numpy"])
    if p["heap"]:
        junk = [bytearray(r.choice((16, 24, 40, 64, 100, 200, 500, 1000))) if r.random() < .5 else {j: None for j in range(r.choice((0, 3, 9, 20)))}
                for _ in range(p["heap"])]
        r.shuffle(junk)
        kept.append(junk[:len(junk) // 2])
        del junk
    if p["gc"] == "off":
        gc.disable()
    elif p["gc"]:
        gc.set_threshold(p["gc"], 2, 2)
    if p.get("work"):
        SIM.stream = Stream(seed_of("work", plan["seed"]))
        from functools import partial
        from gerrychain import MarkovChain, Partition
        from gerrychain.proposals import propose_random_flip, recom
        from gerrychain.tree import bipartition_tree
        from gerrychain.updaters import Tally, cut_edges
        ow = world.World(dict(plan["prior_world"], shape="grid", n=9, k=2, pops="unit"))
        op = Partition(ow.graph(), dict(ow.start), {"cut_edges": cut_edges, "pop": Tally("pop")})
        kind, n = p["work"]
        prop = propose_random_flip if kind == "flips" else partial(recom, pop_col="pop", pop_target=ow.total() / 2, epsilon=.9, method=partial(bipartition_tree, max_attempts=50))
        q = op
        for _ in range(n):
            q = prop(q)
            if not all(q.parts.values()):
                q = op
            q["cut_edges"]
        for q in MarkovChain(prop, lambda q: all(q.parts.values()), lambda q: True, op, 3):
            q["cut_edges"]
    if plan["prior"]:
        SIM.stream = Stream(seed_of("prior", plan["seed"]))
        other = dict(plan, worlds=[plan["prior_world"]], seed=plan["seed"] + 1)
        S = c04.Setup(other)
        for k, a in enumerate(plan["prior"]):
            g = extra(S, a) if a["kind"] in ("initial", "recomcls") else c04.actor(S, k, a, lambda where: None)
            obs = []
            for _ in range(r.choice([1, 3, 100])):
                c04.step(g, obs, SIM.stream)
                if obs[-1][0] != "o":
                    break
            if p["keep"]:
                kept.append((g, S))


def disturbed(plan):
    kept = []
    SIM.set_budget(6 * 10 ** 6)
    SIM.stream = Stream(3)
    disturb(plan, kept)
    import random
    SIM.stream = Stream(2)
    for _ in range(plan["perturb"]["drew"]):
        random.random()
    SIM.stream.n = 0
    return program(plan, plan["perturb"]["bar"])


def forked(fn, plan):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                data = json.dumps(["ok", fn(plan)]).encode()
            except BaseException as e:
                import traceback
                data = json.dumps(["hang" if type(e).__name__ in ("SimHang", "Timeout") else "harness", traceback.format_exc()[-3000:]]).encode()
            off = 0
            while off < len(data):
                off += os.write(wr, data[off:])
        finally:
            os._exit(0)
    os.close(wr)
    chunks = []
    while True:
        b = os.read(rd, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(rd)
    os.waitpid(pid, 0)
    return json.loads(b"".join(chunks) or b'["harness", "no answer"]')


def fresh(plan):
    """The perturbed execution in an interpreter of its own, whose entropy and clock differ from the start."""
    from ..cli import VERIF
    env = dict(os.environ, SIM_ENTROPY=str(1 + plan["perturb"]["entropy"] % 1000))
    out = subprocess.run([sys.executable, "-c", "import sys, json\nfrom sim import boot\nfrom sim.props import c05\nc05.fresh_main()"],
                         input=json.dumps(plan).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=VERIF)
    if out.returncode:
        return ["harness", out.stderr.decode()[-3000:]]
    return json.loads(out.stdout.decode().splitlines()[-1])


def fresh_main():
    import warnings
    warnings.simplefilter("ignore")
    plan = json.load(sys.stdin)
    res = forked(disturbed, plan)
    sys.stdout.write("\n" + json.dumps(res))


def execute(plan, ctx):
    p = plan["perturb"]
    a = forked(plain, plan)
    b = fresh(plan) if p["fresh"] else forked(disturbed, plan)
    for x in (a, b):
        if x[0] == "harness":
            raise RuntimeError(x[1])
    ctx.check(a[0] == b[0], "differs", lambda: "plainly the program %s; perturbed it %s: %s" % (a[0], b[0], (a if a[0] != "ok" else b)[1]))
    if a[0] != "ok":
        raise Skip("both executions used up their draws")
    a, b = a[1], b[1]
    ctx.sig(plan["stages"], a)
    for j, (x, y) in enumerate(zip(a, b)):
        ctx.step()
        ctx.state([plan["worlds"], x[1]])
        ctx.check(x == y, "differs", lambda: "observation %d of the seeded program: plainly %s; perturbed %s" % (j, str(x)[:1500], str(y)[:1500]))
    ctx.check(len(a) == len(b), "differs", lambda: "%d observations plainly, %d perturbed" % (len(a), len(b)))
    ctx.event([o[0] for o in a], a[-1])
    ctx.fault("clock-" + p["clock"])
    ctx.fault("entropy-and-numpy-state")
    for f in ("gc", "heap", "bar", "fresh", "work"):
        if p[f]:
            ctx.fault("perturbed-" + f)
    ctx.fault("prior-work", len(plan["prior"]))
    ctx.count("draws", a[-1][2])


def simpler(plan):
    p = plan["perturb"]
    for f, v in (("fresh", False), ("bar", False), ("work", None), ("heap", 0), ("gc", None), ("keep", False), ("drew", 0), ("clock", "smooth")):
        if p[f] != v:
            yield dict(plan, perturb=dict(p, **{f: v}))
    sp = plan["worlds"][0]
    for n in range(4, sp["n"]):
        yield dict(plan, worlds=[dict(sp, n=n)])
    for f, v in (("shape", "path"), ("labels", "int"), ("plabels", "int"), ("pops", "unit"), ("weight", False), ("k", 2)):
        if sp[f] != v:
            yield dict(plan, worlds=[dict(sp, **{f: v})])
    for j, a in enumerate(plan["stages"]):
        if a["steps"] > 2:
            yield dict(plan, stages=plan["stages"][:j] + [dict(a, steps=2)] + plan["stages"][j + 1:])
    for j in range(len(plan["stats"])):
        yield dict(plan, stats=plan["stats"][:j] + plan["stats"][j + 1:])
