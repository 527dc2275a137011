"""Reference model of (weighted) Gaussian mixtures: a list of Gauss components compared by their potential."""
import numpy as np

from . import refs
from .core import Violation


class Mix:
    def __init__(self, comps):
        self.comps = list(comps)
        self.vrs = list(comps[0].vrs)

    @property
    def scope(self):
        return list(self.vrs)

    def each(self, func):
        return Mix([func(c) for c in self.comps])

    def multiply(self, other):
        if isinstance(other, Mix):
            return Mix([a.multiply(b) for a in self.comps for b in other.comps])
        return self.each(lambda c: c.multiply(other))

    def divide(self, other):
        if isinstance(other, Mix):
            if len(other.comps) != 1:
                raise ValueError("approximate division")
            other = other.comps[0]
        return self.each(lambda c: c.divide(other))

    cancel = divide

    def reduce(self, ev):
        return self.each(lambda c: c.reduce(ev))

    def marginalize(self, keep):
        return self.each(lambda c: c.marginalize(keep))

    def reorder(self, order):
        return self.each(lambda c: c.reorder(order))

    def logweight(self):
        return float(refs.lse(np.array([c.logweight() for c in self.comps])))

    def normalize(self):
        lw = self.logweight()
        return self.each(lambda c: refs.Gauss(c.vrs, c.K, c.h, c.g - lw))

    def scale(self):
        return max(c.scale() for c in self.comps)

    def logpot(self, x):
        return float(refs.lse(np.array([gauss_logpot(c, x) for c in self.comps])))

    def moments(self):
        """Moments of the normalised mixture."""
        lw = np.array([c.logweight() for c in self.comps])
        w = np.exp(lw - refs.lse(lw))
        ms = [c.moments() for c in self.comps]
        mean = sum(wi * m for wi, (_, m) in zip(w, ms))
        cov = sum(wi * (S + np.outer(m, m)) for wi, (S, m) in zip(w, ms)) - np.outer(mean, mean)
        return cov, mean


def gauss_logpot(c, x):
    x = np.asarray(x, dtype=float).reshape(-1)
    return float(-0.5 * x @ c.K @ x + c.h @ x + c.g)


def read(factor):
    """Like refs.read, for mixtures too."""
    if type(factor).__name__ != "GaussianMixture":
        return refs.read(factor)
    try:
        comps = [refs.read_gaussian(c) for c in factor.components]
    except Exception as e:
        raise Violation("malformed-factor", f"GaussianMixture cannot be read: {type(e).__name__}: {e}") from e
    out = Mix(comps)
    if list(factor.var_names) != out.vrs or any(c.vrs != out.vrs for c in comps):
        raise Violation("malformed-factor", f"mixture over {factor.var_names} with components over {[c.vrs for c in comps]}")
    if factor.num_components != len(comps):
        raise Violation("malformed-factor", f"{factor.num_components} components, list of {len(comps)}")
    return out


def diff(actual, expected, tol):
    """None if equal. Components of mixtures may come in any order."""
    if isinstance(actual, Mix) != isinstance(expected, Mix):
        return "different kinds"
    if not isinstance(actual, Mix):
        return refs.diff(actual, expected, tol)
    if set(actual.vrs) != set(expected.vrs):
        return f"variables {actual.vrs}, expected {expected.vrs}"
    if len(actual.comps) != len(expected.comps):
        return f"{len(actual.comps)} components, expected {len(expected.comps)}"
    left = list(expected.comps)
    why = None
    for a in actual.comps:
        for i, e in enumerate(left):
            d = refs.diff(a, e, tol)
            if d is None:
                del left[i]
                break
            why = why or d
        else:
            return f"a component has no counterpart: {why}"
    return None
