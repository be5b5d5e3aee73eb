"""Every outcome of a piece of library code, by branching over its discrete draws (each path is one simulated run)."""
from fractions import Fraction
from .seam import SIM, Stream


class Unbranchable(BaseException):
    """The code used a continuous draw: the outcome distribution is estimated by sampling instead."""


class TooMany(BaseException):
    pass


class PathStream(Stream):
    def __init__(self, path):
        super().__init__(0)
        self.path, self.k, self.sizes = path, 0, []

    def random(self):
        raise Unbranchable()

    def bits(self, k):
        raise Unbranchable()

    def below(self, n):
        self._tick()
        self.sizes.append(n)
        v = self.path[self.k] if self.k < len(self.path) else 0
        self.k += 1
        return v


def enumerate_outcomes(f, limit=3000):
    """f() -> hashable outcome.  Returns ({outcome: exact probability}, number of paths)."""
    dist, path, n = {}, [], 0
    keep = SIM.stream
    try:
        while True:
            n += 1
            if n > limit:
                raise TooMany()
            st = SIM.stream = PathStream(path)
            out = f()
            pr = Fraction(1)
            for m in st.sizes:
                pr /= m
            dist[out] = dist.get(out, 0) + pr
            path = (path + [0] * len(st.sizes))[:len(st.sizes)]
            while path and path[-1] + 1 >= st.sizes[len(path) - 1]:
                path.pop()
            if not path:
                return dist, n
            path[-1] += 1
    finally:
        SIM.stream = keep


def chi2_sf_bound(x, dof):
    """Upper bound on P(chi2_dof >= x) (Chernoff), for x > dof."""
    import math
    if x <= dof:
        return 1.0
    return math.exp(-(x - dof) / 2 + dof / 2 * math.log(x / dof))


def uniform_test(counts, probs, n):
    """Chi-square of counts against exact probabilities; returns an upper bound on the p-value."""
    x = sum((counts.get(o, 0) - n * float(p)) ** 2 / (n * float(p)) for o, p in probs.items())
    return chi2_sf_bound(x, max(1, len(probs) - 1))
