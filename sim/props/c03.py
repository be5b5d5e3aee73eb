"""C03: a retained plan never changes."""
from ..seam import RealRandom, SIM, Stream
from .. import world, hist, stats, activity
from ..core import seed_of
from .c02 import DEPS

RUNS = {"quick": 1900, "thorough": 40000}
SHRINK = ["ops", "stats"]
RULE = ("one run = one world; plans are created (also from collections the caller then changes), snapshotted (all views, some "
        "statistics) and retained while a random schedule of moves, chains, optimizers, recombination, enumerations, aborted "
        "activities and deletions runs on them and their relatives; every retained plan is re-examined during and after; "
        "non-trivial if at least one later activity and one aborted activity or mutated collection happened")
ASSUMPTIONS = ["the caller does not write to objects handed out by the plan itself"]


class Abort(BaseException):
    pass


def gen(rng, tier, i):
    ops = [[rng.choice(["move"] * 5 + ["activity"] * 6 + ["abort", "abort", "snapshot", "snapshot", "new", "mutate", "mutate",
                        "erase", "forget", "badmove", "recheck"]), rng.randrange(1 << 30)] for _ in range(rng.randint(4, 18))]
    names = rng.sample(stats.NAMES, rng.randint(2, 10))
    return dict(world=world.spec(rng, 4, 12, 2, 4, wide=.02, one=.02), stats=names, ops=ops)


def execute(plan, ctx):
    import pandas
    from gerrychain import Partition
    w = world.World(plan["world"])
    parts = w.parts
    names = list(plan["stats"]) or ["cut_edges"]
    need = ["cut_edges"] + [n for n in names if n != "cut_edges"]
    for n in names:
        need += [d for d in DEPS.get(n, []) if d not in need]
    ups = stats.make(w, need)
    graph = w.graph()
    slots, passed = [], []
    ctx.sig(w.edges, names)

    def create(asg, r):
        form = r.choice(["dict", "series", "assignment"])
        if form == "dict":
            given = dict(asg)
        elif form == "series":
            given = pandas.Series(list(asg.values()), index=pandas.Index(list(asg), tupleize_cols=False))
        else:
            from gerrychain.partition.assignment import Assignment
            given = Assignment.from_dict(dict(asg))
        u = dict(ups)
        p = Partition(graph, given, u, use_default_updaters=False)
        passed.append((form, given, u))
        slots.append(hist.Slot(p, dict(asg)))

    create(w.start, RealRandom(plan["seed"]))

    held = []                                            # objects taken from plans, kept whatever becomes of the plan

    def hold(s, r):
        a, lv = dict(s.asg), {p: frozenset(x) for p, x in w.level(s.asg, parts).items()}
        kind = r.choice(["assignment", "parts", "subgraphs", "subgraph", "statistic"])
        if kind == "statistic":
            n = r.choice(names)
            stats.read(ctx, w, s, n, parts)
            if n not in s.frozen:
                return
            o = s.plan[n]
            held.append((o, kind + " " + n, stats.freeze, s.frozen[n]))
        elif kind == "assignment":
            held.append((s.plan.assignment, kind, lambda o: (dict(o.items()), {p: frozenset(o.parts[p]) for p in o.parts}), (a, lv)))
        elif kind == "parts":
            held.append((s.plan.parts, kind, lambda o: {p: frozenset(o[p]) for p in o}, lv))
        elif kind == "subgraphs":
            held.append((s.plan.subgraphs, kind, lambda o: {p: frozenset(o[p].nodes) for p in parts}, lv))
        else:
            p = r.choice(parts)
            held.append((s.plan.subgraphs[p], kind, lambda o: frozenset(o.nodes), lv[p]))
        ctx.count("held:" + kind)

    def recheck(which=None):
        for s in (slots if which is None else which):
            hist.check_views(ctx, s.plan, w, s.asg, parts, True, " (retained plan)")
            for n in list(s.frozen):
                stats.read(ctx, w, s, n, parts)
        for o, kind, look, want in held:
            got = look(o)
            ctx.check(got == want, "held:" + kind, lambda: "the %s taken from a plan earlier now shows %r, then %r" % (kind, got, want))

    acts = bad = 0
    for op, seed in plan["ops"]:
        r = RealRandom(seed)
        SIM.stream = Stream(seed_of("op", seed))
        SIM.set_budget(300000)
        s = r.choice(slots)
        ctx.sig(op)
        if op == "move":
            f = hist.flips_for(r.choice(hist.MOVES), w, s.asg, parts, r, s.prev)
            q = s.plan.flip(f)
            slots.append(hist.Slot(q, hist.apply(s.asg, f), dict(s.asg)))
            passed.append(("flips", f, None))
            ctx.step()
        elif op == "snapshot":
            hist.check_views(ctx, s.plan, w, s.asg, parts)
            for _ in range(r.randint(0, 4) if len(held) < 40 else 0):
                hold(s, r)
            for n in r.sample(names, r.randint(1, len(names))):
                stats.read(ctx, w, s, n, parts)
        elif op == "new":
            create(s.asg if set(s.asg.values()) == set(parts) else w.start, r)
        elif op == "mutate" and passed:
            form, given, u = r.choice(passed)
            vs = r.sample(w.nodes, r.randint(1, len(w.nodes)))
            if form in ("dict", "series", "flips"):
                for v in vs:
                    given[v] = r.choice(parts)
                if form != "series" and r.random() < .3:
                    given.clear()
            else:
                given.update_parts({parts[0]: set(w.nodes), **{p: set() for p in parts[1:]}})
            if u is not None and r.random() < .5:
                u.clear()
                u["cut_edges"] = lambda p: set()
            ctx.fault("caller-changed-collection:" + form)
            bad += 1
        elif op == "erase":
            s.plan.parent = None
            ctx.fault("ancestry-erased")
        elif op == "forget" and len(slots) > 1:
            slots.remove(s)
            ctx.fault("plan-dropped")
        elif op == "badmove":
            try:
                s.plan.flip({**hist.flips_for("multi", w, s.asg, parts, r), "no such node": parts[0]})
            except Exception:
                ctx.fault("failing-move")
            bad += 1
        elif op in ("activity", "abort"):
            kind = r.choice(activity.KINDS)
            left = [r.randint(1, 12) if op == "abort" else 10 ** 9]

            def hook(where):
                left[0] -= 1
                if left[0] == 0:
                    ctx.fault("aborted-in:" + where)
                    raise Abort()

            def on_plan(p):
                ctx.step()
                # only plans whose predecessor is known are taken in (county status is relative to it)
                if len(slots) < 40 and p.parent is not None and not any(p is t.plan for t in slots):
                    t = hist.Slot(p, hist.read_asg(ctx, p, w), hist.read_asg(ctx, p.parent, w))
                    if r.random() < .5:
                        slots.append(t)
                    for n in r.sample(names, r.randint(0, min(2, len(names)))):
                        stats.read(ctx, w, t, n, parts)
                if r.random() < .2:
                    recheck(r.sample(slots, min(2, len(slots))))
            try:
                activity.run(kind, w, s.plan, parts, r, hook, r.randint(2, 8), on_plan)
            except Abort:
                bad += 1
            acts += 1
            ctx.count("activity:" + kind)
        elif op == "recheck":
            recheck()
        if r.random() < .3:
            recheck()
        ctx.state([w.edges, slots[-1].asg])
    recheck()
    for s in slots:
        o = list(names)
        ctx.rng.shuffle(o)
        for n in o:
            stats.read(ctx, w, s, n, parts)
    ctx.nontrivial = acts > 0 and bad > 0


def simpler(plan):
    for n in range(3, plan["world"]["n"]):
        yield dict(plan, world=dict(plan["world"], n=n))
    for f, v in (("shape", "path"), ("labels", "int"), ("plabels", "int"), ("pops", "unit"), ("weight", False), ("k", 2)):
        if plan["world"][f] != v:
            yield dict(plan, world=dict(plan["world"], **{f: v}))
