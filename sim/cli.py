"""check Cxx | worker ... | replay FILE | one Cxx INDEX | known Cxx"""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LANES = 8
PY = sys.executable
WALL_CAP = {"quick": 780, "thorough": 6 * 3600}


def envfor(hashseed):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED=str(hashseed), OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONPATH=VERIF,
             PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONWARNINGS="ignore")
    return e


def hashseed(vseed, lane):
    return (vseed * 1000003 + lane * 7919 + 11) % 4294967295


def known_file():
    with open(os.path.join(VERIF, "known-findings.json")) as f:
        return json.load(f)["findings"]


def worker(prop, vseed, tier, lane, nruns):
    from . import boot, core
    import gc
    mod = core.load(prop)
    gc.collect()
    gc.freeze()
    t0 = time.process_time()
    import random as _r
    agg = dict(runs=0, skips=0, errors=[], violations=[], faults={}, counts={}, steps=0, mism=[], rechecks=0)
    states, sigs, nsigs = set(), set(), set()
    samples = []
    for i in range(lane, nruns, LANES):
        plan = core.make_plan(mod, prop, vseed, tier, i)
        res = core.run_forked(mod, plan)
        agg["runs"] += 1
        if res["verdict"] == "error":
            agg["errors"].append([i, res["msg"]])
            if len(agg["errors"]) > 3:
                break
            continue
        if res["verdict"] == "skip":
            agg["skips"] += 1
            continue
        for k, v in res["faults"].items():
            agg["faults"][k] = agg["faults"].get(k, 0) + v
        for k, v in res["counts"].items():
            agg["counts"][k] = agg["counts"].get(k, 0) + v
        agg["steps"] += res["steps"]
        states.update(res["states"])
        sigs.add(res["sig"])
        if res["nontrivial"]:
            nsigs.add(res["sig"])
        if len(samples) < 1 and res["nontrivial"] and res["verdict"] == "ok":
            samples.append(dict(run=i, plan=plan, trace=res["trace"][:12]))
        if res["verdict"] == "violation":
            agg["violations"].append(dict(i=i, plan=plan, cls=res["cls"], msg=res["msg"], digest=res["digest"]))
            break
        if i // LANES % 12 == 5:                      # the same seed must give the same execution
            again = core.run_forked(mod, plan)
            agg["rechecks"] += 1
            if (again.get("digest"), again.get("verdict")) != (res["digest"], res["verdict"]):
                agg["mism"].append(i)
    agg.update(states=sorted(states), sigs=sorted(sigs), nsigs=sorted(nsigs), samples=samples)
    sys.stdout.write(json.dumps(agg))
    sys.stdout.flush()


def size(plan):
    return len(json.dumps(plan))


def minimise(prop, viol, budget_s=60, cap=400):
    """Greedy: drop list entries in halving chunks, then the module's own simplifications."""
    from . import core
    mod = core.load(prop)
    best, cls, t0, tried = viol["plan"], viol["cls"], time.monotonic_real(), [0]

    def bad(p):
        tried[0] += 1
        r = core.run_forked(mod, json.loads(json.dumps(p)))
        return r["verdict"] == "violation" and r["cls"] == cls

    def over():
        return time.monotonic_real() - t0 > budget_s or tried[0] > cap

    changed = True
    while changed and not over():
        changed = False
        for field in getattr(mod, "SHRINK", []):
            lst = best.get(field)
            if not isinstance(lst, list) or not lst:
                continue
            n = len(lst)
            while n >= 1 and not over():
                k = 0
                while k < len(best[field]) and not over():
                    cand = dict(best)
                    cand[field] = best[field][:k] + best[field][k + n:]
                    if len(cand[field]) < len(best[field]) and bad(cand):
                        best, changed = cand, True
                    else:
                        k += n
                n //= 2
        if hasattr(mod, "simpler"):
            for cand in mod.simpler(best):
                if over():
                    break
                if json.dumps(cand) != json.dumps(best) and bad(cand):
                    best, changed = cand, True
                    break
    return best, tried[0]


def cmd_min(path):
    """(internal) minimise the replay file in place, under its hash seed."""
    from . import boot, core
    from .seam import REAL
    time.monotonic_real = REAL["monotonic"]
    with open(path) as f:
        d = json.load(f)
    best, tried = minimise(d["property"], d)
    res = core.run_forked(core.load(d["property"]), json.loads(json.dumps(best)))
    if res["verdict"] == "violation" and res["cls"] == d["cls"]:
        d.update(plan=best, msg=res["msg"], digest=res["digest"], trace=res["trace"], minimisation_runs=tried,
                 original_bytes=size(d["plan"]), minimised_bytes=size(best))
    with open(path, "w") as f:
        json.dump(d, f, indent=1)


def replay(path, quiet=False):
    with open(path) as f:
        d = json.load(f)
    if os.environ.get("PYTHONHASHSEED") != str(d["hashseed"]):
        return subprocess.call([PY, "-m", "sim.cli", "replay", path], env=envfor(d["hashseed"]), cwd=VERIF)
    from . import boot, core
    res = core.run_forked(core.load(d["property"]), d["plan"])
    same = res["verdict"] == "violation" and res["cls"] == d["cls"]
    print("replay of %s: %s %s" % (path, res["verdict"], res.get("cls") or ""))
    print(res.get("msg") or "")
    print("exactly as recorded" if same and res["digest"] == d["digest"] else
          "same violation, different history" if same else "NOT reproduced")
    return 1 if res["verdict"] == "violation" else 0 if res["verdict"] in ("ok", "skip") else 2


def known_probe(prop, fid):
    """(internal) exit 0 and print PRESENT/ABSENT."""
    from . import boot, core
    mod = core.load(prop)
    from .seam import SIM
    SIM.reset(1)
    print("PRESENT" if mod.KNOWN[fid]() else "ABSENT")


def check(prop):
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.monotonic()
    sys.path.insert(0, VERIF)
    meta = json.loads(subprocess.check_output(
        [PY, "-m", "sim.cli", "meta", prop], env=envfor(0), cwd=VERIF))
    nruns = int(os.environ.get("VERIF_RUNS") or meta["runs"][tier])
    procs = []
    for lane in range(LANES):
        procs.append(subprocess.Popen(
            [PY, "-m", "sim.cli", "worker", prop, str(vseed), tier, str(lane), str(nruns)],
            env=envfor(hashseed(vseed, lane)), cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE))
    outs, broken = [], []
    import threading
    bufs = [None] * LANES

    def rd(k):
        bufs[k] = procs[k].communicate()
    ths = [threading.Thread(target=rd, args=(k,)) for k in range(LANES)]
    [t.start() for t in ths]
    for t in ths:
        t.join(max(1, WALL_CAP[tier] - (time.monotonic() - t0)))
    for k, p in enumerate(procs):
        if p.poll() is None:
            p.kill()
            broken.append("lane %d did not finish in time" % k)
            continue
        ths[k].join()
        try:
            outs.append((k, json.loads(bufs[k][0])))
        except Exception:
            broken.append("lane %d: exit %s %s" % (k, p.returncode, bufs[k][1].decode()[-2000:]))
    viols = sorted((v["i"], k, v) for k, o in outs for v in o["violations"])
    errs = [e for _, o in outs for e in o["errors"]]

    def merge(key):
        m = {}
        for _, o in outs:
            for a, b in o[key].items():
                m[a] = m.get(a, 0) + b
        return dict(sorted(m.items()))
    runs = sum(o["runs"] for _, o in outs)
    states = set().union(*[o["states"] for _, o in outs]) if outs else set()
    sigs = set().union(*[o["sigs"] for _, o in outs]) if outs else set()
    nsigs = set().union(*[o["nsigs"] for _, o in outs]) if outs else set()
    # known findings of this property
    known_viol = []
    for kf in known_file():
        if kf["property"] != prop or kf.get("status") != "open":
            continue
        out = subprocess.run([PY, "-m", "sim.cli", "known", prop, kf["id"]], env=envfor(0), cwd=VERIF,
                             capture_output=True, text=True)
        if "PRESENT" in out.stdout:
            print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
        elif out.returncode != 0:
            print("note: the probe of known finding %s did not run: %s" % (kf["id"], out.stderr[-300:]))
    path = None
    if viols:
        i, lane, v = viols[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-seed%d-run%d.json" % (prop, vseed, i))
        d = dict(property=prop, cls=v["cls"], msg=v["msg"], plan=v["plan"], digest=v["digest"], run=i, verif_seed=vseed,
                 tier=tier, hashseed=hashseed(vseed, lane), repo=subprocess.run(
                     ["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip(),
                 how="cd /verif && ./replay %s" % path)
        with open(path, "w") as f:
            json.dump(d, f, indent=1)
        try:
            subprocess.run([PY, "-m", "sim.cli", "min", path], env=envfor(d["hashseed"]), cwd=VERIF, timeout=150,
                           capture_output=True)
            rp = subprocess.run([PY, "-m", "sim.cli", "replay", path], env=envfor(d["hashseed"]), cwd=VERIF, timeout=200,
                                capture_output=True, text=True)
            verified = rp.stdout.strip().splitlines()[-1] if rp.stdout.strip() else "replay failed"
        except subprocess.TimeoutExpired:
            verified = "replay not verified in time"
        with open(path) as f:
            d = json.load(f)
    wall = time.monotonic() - t0
    cov = dict(
        evaluations=runs, distinct_nontrivial=len(nsigs), rule=meta["rule"],
        samples=[s for _, o in outs for s in o["samples"]][:3],
        seeds=runs, skipped_outside_domain=sum(o["skips"] for _, o in outs),
        runs_per_hour=round(runs / wall * 3600), simulated_steps=sum(o["steps"] for _, o in outs),
        simulated_time="the system has no timers of its own; simulated time is counted in library steps (simulated_steps)",
        faults_injected=merge("faults"), activity=merge("counts"), distinct_interleavings=len(sigs),
        interleaving_measure=meta["sig_rule"], distinct_states=len(states), state_measure=meta["state_rule"],
        determinism_rechecks=sum(o["rechecks"] for _, o in outs), determinism_mismatches=[m for _, o in outs for m in o["mism"]],
        real_components=meta["real"], stubbed_components=meta["stub"], hash_seeds=[hashseed(vseed, k) for k in range(LANES)])
    ev = dict(property=prop, tier=tier, seed=vseed, level="exploration", coverage=cov, wall_s=round(wall, 2),
              violations=len(viols), assumptions=meta["assumptions"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viols:
        print("%s: %s\n%s" % (prop, d["cls"], d["msg"]))
        print("seed: VERIF_SEED=%d run=%d; replay check: %s" % (vseed, d["run"], verified))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errs or broken or not outs:
        for e in errs[:5]:
            print("ERROR of the check, run %s:\n%s" % (e[0], e[1]))
        for b in broken:
            print("ERROR of the check: " + b)
        return 2
    print("%s: %d runs, %d steps, %d distinct interleavings, %d states, %.0f s: held" % (
        prop, runs, cov["simulated_steps"], len(sigs), len(states), wall))
    return 0


DEFAULT_REAL = ["all of gerrychain reached by the scenario", "networkx", "numpy", "pandas"]
DEFAULT_STUB = ["random module's generator (seeded per-actor streams)", "time", "os.urandom"]


def main(a):
    if a[0] == "check":
        return check(a[1])
    if a[0] == "worker":
        return worker(a[1], int(a[2]), a[3], int(a[4]), int(a[5]))
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "min":
        return cmd_min(a[1])
    if a[0] == "known":
        return known_probe(a[1], a[2])
    if a[0] == "meta":
        from . import boot, core
        m = core.load(a[1])
        print(json.dumps(dict(
            runs=m.RUNS, rule=m.RULE, sig_rule=getattr(m, "SIG", "hash of the sequence of scheduler decisions, faults and observed outcomes of a run"),
            state_rule=getattr(m, "STATE", "hash of (graph, assignment) of plans reached"),
            real=getattr(m, "REAL", DEFAULT_REAL), stub=DEFAULT_STUB + getattr(m, "STUB", []),
            assumptions=getattr(m, "ASSUMPTIONS", []))))
        return 0
    if a[0] == "one":                                   # development: one run in this process
        from . import boot, core
        m = core.load(a[1])
        plan = core.make_plan(m, a[1], int(os.environ.get("VERIF_SEED", "1")), "quick", int(a[2]))
        r = core.run_here(m, plan)
        print(json.dumps(plan)[:3000])
        r.pop("states"), r.pop("trace")
        for k, v in r.items():
            print(k, ":", v)
        return 0
    return 3


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
