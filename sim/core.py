"""Run one simulated execution: context, canonical forms, isolation by fork, limits."""
import hashlib, importlib, json, math, os, pickle, resource, signal, sys, traceback, warnings

from . import seam
from .seam import SIM, RealRandom, SimHang

REPO = os.environ.get("SIM_REPO_DEV", "/repo")          # the override is for development only
LIB = os.path.join(REPO, "gerrychain") + os.sep


class Violation(BaseException):
    """The property is broken.  BaseException: no `except Exception` in the library may swallow it."""

    def __init__(self, cls, msg):
        super().__init__("%s: %s" % (cls, msg))
        self.cls, self.msg = cls, msg


class Timeout(BaseException):
    pass


class Skip(BaseException):
    """The generated case is outside the property's domain (counted, never a verdict)."""


# ---------------------------------------------------------------------------- canonical forms
def canon(x, depth=0):
    """Deterministic, order-insensitive text of a value; independent of addresses and hash order."""
    if depth > 12:
        return "..."
    d = depth + 1
    if x is None or x is True or x is False or isinstance(x, (str, bytes)):
        return repr(x)
    if isinstance(x, float):
        return "nan" if math.isnan(x) else repr(x)
    if isinstance(x, int):
        return repr(int(x))
    if isinstance(x, dict):
        return "{" + ",".join(sorted(canon(k, d) + ":" + canon(v, d) for k, v in x.items())) + "}"
    if isinstance(x, (set, frozenset)):
        return "<" + ",".join(sorted(canon(v, d) for v in x)) + ">"
    if isinstance(x, (list, tuple)):
        return ("[" if isinstance(x, list) else "(") + ",".join(canon(v, d) for v in x) + ")"
    if hasattr(x, "item") and type(x).__module__ == "numpy":
        try:
            return canon(x.item(), d)
        except Exception:
            return "ndarray" + canon(x.tolist(), d)
    if hasattr(x, "totals_for_party"):
        return "ER" + canon([x.totals_for_party, x.totals, x.percents_for_party], d)
    if type(x).__name__ == "CountySplit":
        return "CS." + x.name
    return "<%s>" % type(x).__name__


def h64(x):
    s = x if isinstance(x, (bytes, str)) else canon(x)
    return hashlib.blake2b(s.encode() if isinstance(s, str) else s, digest_size=8).hexdigest()


def seed_of(*a):
    return int(hashlib.blake2b(repr(a).encode(), digest_size=8).hexdigest(), 16)


# ---------------------------------------------------------------------------- context
class Ctx:
    def __init__(self, plan):
        self.plan = plan
        self.rng = RealRandom(plan["seed"])
        self.faults, self.counts = {}, {}
        self.steps = 0
        self.states, self._sig, self._dig = set(), hashlib.blake2b(digest_size=8), hashlib.blake2b(digest_size=8)
        self.nontrivial = False
        self.trace = []

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.nontrivial = True

    def count(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n

    def step(self, n=1):
        self.steps += n

    def event(self, *data):
        c = canon(list(data))
        self._dig.update(c.encode())
        if len(self.trace) < 400:
            self.trace.append(c if len(c) < 300 else c[:300] + "...")

    def sig(self, *data):
        self._sig.update(canon(list(data)).encode())

    def state(self, x):
        if len(self.states) < 3000:
            self.states.add(h64(x))

    def check(self, cond, cls, msg=""):
        if not cond:
            self.fail(cls, msg() if callable(msg) else msg)

    def fail(self, cls, msg=""):
        raise Violation(cls, msg)

    def result(self, **kw):
        r = dict(verdict="ok", cls=None, msg=None, faults=self.faults, counts=self.counts, steps=self.steps,
                 states=sorted(self.states), sig=self._sig.hexdigest(), digest=self._dig.hexdigest(),
                 nontrivial=self.nontrivial, trace=self.trace)
        r.update(kw)
        return r


SIMDIR = os.path.dirname(os.path.abspath(__file__)) + os.sep


def _lib_frame(exc):
    """Was the exception raised inside the library (or something it called), not inside the harness?

    Innermost frame that belongs to the library or the harness decides; the seams count as stdlib."""
    frames, tb = [], exc.__traceback__
    while tb is not None:
        frames.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    for f in reversed(frames):
        if f.startswith(LIB):
            return True
        if f.startswith(SIMDIR) and not f.endswith("seam.py"):
            return False
    return False


def lib_where(exc):
    w = "?"
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(LIB):
            w = "%s:%s" % (os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return w


def run_here(mod, plan):
    """Execute one plan in this process (call only in a pristine, forked or fresh one)."""
    ctx = Ctx(plan)
    SIM.reset(plan["seed"])
    warnings.simplefilter("ignore")

    def onalarm(*_):
        raise Timeout()
    signal.signal(signal.SIGPROF, onalarm)
    limit = plan.get("cpu") or getattr(mod, "CPU_LIMIT", 60)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        mod.execute(plan, ctx)
        return ctx.result()
    except Violation as v:
        return ctx.result(verdict="violation", cls=v.cls, msg=v.msg)
    except Skip as s:
        return ctx.result(verdict="skip", msg=str(s))
    except SimHang as e:
        return ctx.result(verdict="violation", cls="hang", msg="no progress: %s draws used up; %s" % (
            SIM.budget, "".join(traceback.format_exc(limit=-4))))
    except Timeout:
        return ctx.result(verdict="violation", cls="hang", msg="no progress within %d s of processor time: %s" % (
            limit, "".join(traceback.format_exc(limit=-4))))
    except BaseException as e:
        tb = "".join(traceback.format_exception(e))
        if _lib_frame(e):
            return ctx.result(verdict="violation", cls="crash:%s" % type(e).__name__,
                              msg="unexpected %s in %s: %s\n%s" % (type(e).__name__, lib_where(e), e, tb[-1500:]))
        if isinstance(e, Exception) and not isinstance(e, (ImportError, MemoryError, OSError, RecursionError)):
            # the examining code tripped over an answer of a shape the library never gives on a correct tree
            return ctx.result(verdict="violation", cls="malformed:%s" % type(e).__name__,
                              msg="an answer of the library could not be examined: %s\n%s" % (e, tb[-1500:]))
        return ctx.result(verdict="error", msg=tb)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def run_forked(mod, plan):
    """Execute one plan in a forked child: pristine library state, and nothing leaks back."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            lim = int(plan.get("cpu") or getattr(mod, "CPU_LIMIT", 60)) + 20
            resource.setrlimit(resource.RLIMIT_CPU, (lim, lim + 5))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 2)
            os.dup2(dn, 1)
            res = run_here(mod, plan)
            data = json.dumps(res).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:])
        except BaseException as e:                                   # pragma: no cover
            try:
                os.write(w, json.dumps(dict(verdict="error", msg="child: %r" % (e,))).encode())
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    data = b"".join(chunks)
    if os.WIFSIGNALED(st) or not data:
        s = os.WTERMSIG(st) if os.WIFSIGNALED(st) else -1
        base = Ctx(plan).result()
        if s in (signal.SIGXCPU,):
            base.update(verdict="violation", cls="hang", msg="stopped after the processor-time limit")
        elif s == signal.SIGKILL:
            base.update(verdict="error", msg="child was killed (memory?)")
        else:
            base.update(verdict="violation", cls="crash:signal", msg="process died, signal %s" % s)
        return base
    return json.loads(data)


def load(prop):
    return importlib.import_module("sim.props." + prop.lower())


def make_plan(mod, prop, vseed, tier, i):
    s = seed_of(vseed, prop, i)
    plan = mod.gen(RealRandom(s), tier, i)
    plan.setdefault("seed", s)
    return json.loads(json.dumps(plan))
