"""The seams.  Import (and `install()`) BEFORE networkx / tqdm / gerrychain.

Every draw the library makes goes through the functions of the `random` module; several are captured as
default arguments at import time, so the module-level functions are rebound to one SimRandom instance
before anything else is imported.  SimRandom forwards every primitive draw to the *current stream*,
which the simulator switches when it switches actors.  Clock and OS entropy are rebound as well.
"""
import builtins, io, os, random, sys, time

REAL = {
    "time": time.time, "monotonic": time.monotonic, "perf_counter": time.perf_counter,
    "time_ns": time.time_ns, "sleep": time.sleep, "urandom": os.urandom, "open": builtins.open,
    "process_time": time.process_time,
}
RealRandom = random.Random
ONE_MINUS = 1.0 - 2.0 ** -53


class SimHang(BaseException):
    """The draw budget of the current operation is used up: bounded liveness is violated."""


class Stream:
    """One source of draws.  style: how ordinary draws are distorted (all are legal draws)."""

    def __init__(self, seed, style="plain"):
        self.r = RealRandom(seed)
        self.style = style
        self.script = None          # optional list of forced values for random()
        self.log = None             # optional list receiving ("r", v) / ("b", n, v)
        self.n = 0

    # -- primitives ------------------------------------------------------------------
    def _tick(self):
        self.n += 1
        SIM.draws += 1
        if SIM.draws > SIM.budget:
            raise SimHang("more than %d draws" % SIM.budget)

    def random(self):
        self._tick()
        if self.script:
            v = self.script.pop(0)
            if v is not None:
                if self.log is not None: self.log.append(("r", v))
                return v
        r, s = self.r, self.style
        if s == "plain":
            v = r.random()
        elif s == "extreme":
            x = r.random()
            v = 0.0 if x < .2 else ONE_MINUS if x < .4 else r.random()
        elif s == "ties":
            v = r.randrange(4) / 4.0
        elif s == "const":
            v = 0.5
        elif s == "low":
            v = r.random() ** 4
        else:
            v = r.random()
        if self.log is not None: self.log.append(("r", v))
        return v

    def below(self, n):
        self._tick()
        r, s = self.r, self.style
        if self.n > 3000:            # a biased walk may need exponentially long: the bias is a bounded fault
            s = "plain"
        if s in ("plain", "ties", "const") or n <= 1:
            v = r.randrange(n)
        else:
            x = r.random()
            if s == "extreme":
                v = 0 if x < .3 else n - 1 if x < .6 else r.randrange(n)
            else:
                v = 0 if x < .6 else r.randrange(n)
        if self.log is not None: self.log.append(("b", n, v))
        return v

    def bits(self, k):
        self._tick()
        return self.r.getrandbits(k)

    def seed(self, a):
        self.r.seed(a)


class EntropyRandom(RealRandom):
    """random.Random as the program sees it: an unseeded generator takes the simulated entropy, not the system's."""

    def __new__(cls, *a):
        return RealRandom.__new__(cls, 0)

    def __init__(self, x=None):
        RealRandom.__init__(self, SIM.entropy.getrandbits(64) if x is None else x)

    def seed(self, a=None, version=2):
        RealRandom.seed(self, SIM.entropy.getrandbits(64) if a is None else a, version)


class _Sim:
    def __init__(self):
        e = os.environ.get("SIM_ENTROPY", "0")          # entropy and clock while the library is being imported
        self.stream = Stream(0)
        self.draws = 0
        self.budget = 10 ** 9
        self.scale = 1
        self.clock = 1.7e9 + 1e4 * int(e)
        self.clock_rng = RealRandom(0)
        self.clock_mode = "smooth"
        self.clock_reads = 0
        self.entropy = RealRandom(int(e))
        self.entropy_reads = 0

    def reset(self, seed):
        if "numpy" in sys.modules:
            sys.modules["numpy"].random.seed(0)
        self.stream = Stream(("base", seed).__repr__())
        self.draws, self.budget, self.scale = 0, 10 ** 9, 1
        self.clock_rng = RealRandom("clock%r" % (seed,))
        self.clock, self.clock_mode, self.clock_reads = 1.7e9, "smooth", 0
        self.entropy = RealRandom("entropy%r" % (seed,))
        self.entropy_reads = 0

    def now(self):
        self.clock_reads += 1
        m = self.clock_mode
        if m == "smooth":
            self.clock += 1e-4
        elif m == "stalled":
            pass
        else:                                   # jumpy: forwards and backwards
            self.clock += self.clock_rng.choice((1e-6, 0.2, 3.0, 3600.0, -1800.0))
        return self.clock

    def set_budget(self, n):
        self.draws, self.budget = 0, int(n * self.scale)


SIM = _Sim()


class SimRandom(EntropyRandom):
    """Stands in for the module-level generator; all derived functions run CPython's own code on top."""

    def random(self):
        return SIM.stream.random()

    def getrandbits(self, k):
        return SIM.stream.bits(k)

    def _randbelow(self, n):
        return SIM.stream.below(n)

    def seed(self, a=None, version=2):
        s = globals().get("SIM")
        if s is not None:
            self.gauss_next = None
            s.stream.seed(a if a is not None else s.entropy.random())

    def getstate(self):
        return SIM.stream.r.getstate()

    def setstate(self, state):
        SIM.stream.r.setstate(state)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    inst = SimRandom()
    random.Random = EntropyRandom
    random._inst = inst
    for name in ("seed", "random", "uniform", "triangular", "randint", "choice", "randrange", "sample",
                 "shuffle", "choices", "normalvariate", "lognormvariate", "expovariate", "vonmisesvariate",
                 "gammavariate", "gauss", "betavariate", "paretovariate", "weibullvariate", "getstate",
                 "setstate", "getrandbits", "randbytes", "binomialvariate"):
        if hasattr(inst, name):
            setattr(random, name, getattr(inst, name))

    def clock():
        return SIM.now()
    time.time = clock
    time.monotonic = clock
    time.perf_counter = clock
    time.time_ns = lambda: int(SIM.now() * 1e9)
    time.monotonic_ns = time.time_ns
    time.perf_counter_ns = time.time_ns

    def sim_sleep(s):
        SIM.clock += s
    time.sleep = sim_sleep

    def sim_urandom(n):
        SIM.entropy_reads += 1
        return bytes(SIM.entropy.getrandbits(8) for _ in range(n))
    os.urandom = sim_urandom
    random._urandom = sim_urandom
