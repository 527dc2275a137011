"""
Executable reference models (independent of the code under test) and readers that turn veroku factors into them.
"""
import numpy as np

from .core import Violation, HarnessError

NEG = -np.inf


def lse(arr, axis=None):
    """log-sum-exp that is exact for -inf."""
    arr = np.asarray(arr, dtype=float)
    if axis is None:
        axis = tuple(range(arr.ndim))
    if axis == ():
        return arr
    if arr.size == 0:
        return np.full([n for i, n in enumerate(arr.shape) if i not in axis], NEG)
    top = np.max(arr, axis=axis, keepdims=True)
    top = np.where(np.isfinite(top), top, 0.0)
    with np.errstate(divide="ignore"):
        out = np.log(np.sum(np.exp(arr - top), axis=axis, keepdims=True)) + top
    return np.squeeze(out, axis=axis)


class Table:
    """A table of log values over named discrete variables."""

    def __init__(self, vrs, logp):
        self.vrs = list(vrs)
        self.logp = np.asarray(logp, dtype=float)
        if self.logp.ndim != len(self.vrs):
            raise HarnessError(f"table over {self.vrs} with shape {self.logp.shape}")

    @property
    def scope(self):
        return list(self.vrs)

    def card(self, v):
        return self.logp.shape[self.vrs.index(v)]

    def align(self, order):
        """The tensor broadcastable over `order` (a superset of the variables)."""
        mine = [v for v in order if v in self.vrs]
        t = self.logp.transpose([self.vrs.index(v) for v in mine])
        return t[tuple(slice(None) if v in self.vrs else None for v in order)]

    def reorder(self, order):
        return Table(order, self.logp.transpose([self.vrs.index(v) for v in order]))

    def _binary(self, other, func):
        order = self.vrs + [v for v in other.vrs if v not in self.vrs]
        return Table(order, func(self.align(order), other.align(order)))

    def multiply(self, other):
        return self._binary(other, np.add)

    def divide(self, other):
        with np.errstate(invalid="ignore"):
            return self._binary(other, np.subtract)

    def cancel(self, other):
        def func(a, b):
            return a - np.where((a == NEG) & (b == NEG), 0.0, b)
        return self._binary(other, func)

    def marginalize(self, keep):
        axes = tuple(i for i, v in enumerate(self.vrs) if v not in keep)
        kept = [v for v in self.vrs if v in keep]
        return Table(kept, lse(self.logp, axes)).reorder(list(keep))

    def reduce(self, ev):
        idx = tuple(ev[v] if v in ev else slice(None) for v in self.vrs)
        return Table([v for v in self.vrs if v not in ev], self.logp[idx])

    def normalize(self):
        return Table(self.vrs, self.logp - lse(self.logp))

    def logweight(self):
        return float(lse(self.logp))

    def scale(self):
        fin = np.abs(self.logp[np.isfinite(self.logp)])
        return float(fin.max()) if fin.size else 0.0

    def kl(self, other):
        p = self.normalize().logp
        q = other.normalize().reorder(self.vrs).logp
        with np.errstate(invalid="ignore"):
            return float(np.sum(np.where(p > NEG, np.exp(p) * (p - q), 0.0)))


class Gauss:
    """exp(-x'Kx/2 + h'x + g) over named variables."""

    def __init__(self, vrs, K, h, g):
        self.vrs = list(vrs)
        n = len(self.vrs)
        self.K = np.asarray(K, dtype=float).reshape(n, n)
        self.h = np.asarray(h, dtype=float).reshape(n)
        self.g = float(g)

    @classmethod
    def from_moments(cls, vrs, cov, mean, logw):
        cov = np.asarray(cov, dtype=float).reshape(len(vrs), len(vrs))
        mean = np.asarray(mean, dtype=float).reshape(len(vrs))
        K = np.linalg.inv(cov)
        h = K @ mean
        g = logw - 0.5 * mean @ h - 0.5 * np.linalg.slogdet(2 * np.pi * cov)[1]
        return cls(vrs, K, h, g)

    @property
    def scope(self):
        return list(self.vrs)

    def _grow(self, order):
        n = len(order)
        K, h = np.zeros((n, n)), np.zeros(n)
        idx = [order.index(v) for v in self.vrs]
        K[np.ix_(idx, idx)] = self.K
        h[idx] = self.h
        return K, h

    def reorder(self, order):
        K, h = self._grow(list(order))
        return Gauss(order, K, h, self.g)

    def multiply(self, other, sign=1.0):
        order = self.vrs + [v for v in other.vrs if v not in self.vrs]
        K1, h1 = self._grow(order)
        K2, h2 = other._grow(order)
        return Gauss(order, K1 + sign * K2, h1 + sign * h2, self.g + sign * other.g)

    def divide(self, other):
        return self.multiply(other, -1.0)

    cancel = divide

    def reduce(self, ev):
        rest = [v for v in self.vrs if v not in ev]
        obs = [v for v in self.vrs if v in ev]
        r = [self.vrs.index(v) for v in rest]
        o = [self.vrs.index(v) for v in obs]
        y = np.array([float(ev[v]) for v in obs])
        Koo = self.K[np.ix_(o, o)]
        return Gauss(rest, self.K[np.ix_(r, r)], self.h[r] - self.K[np.ix_(r, o)] @ y,
                     self.g + self.h[o] @ y - 0.5 * y @ Koo @ y)

    def marginalize(self, keep):
        keep = list(keep)
        out = [v for v in self.vrs if v not in keep]
        k = [self.vrs.index(v) for v in keep]
        o = [self.vrs.index(v) for v in out]
        if not o:
            return self.reorder(keep)
        Koo, Kko = self.K[np.ix_(o, o)], self.K[np.ix_(k, o)]
        inv = np.linalg.inv(Koo)
        ho = self.h[o]
        sign, logdet = np.linalg.slogdet(Koo / (2 * np.pi))
        return Gauss(keep, self.K[np.ix_(k, k)] - Kko @ inv @ Kko.T, self.h[k] - Kko @ inv @ ho,
                     self.g + 0.5 * ho @ inv @ ho - 0.5 * logdet)

    def logweight(self):
        if not self.vrs:
            return self.g
        return self.g + 0.5 * self.h @ np.linalg.solve(self.K, self.h) - 0.5 * np.linalg.slogdet(self.K / (2 * np.pi))[1]

    def normalize(self):
        return Gauss(self.vrs, self.K, self.h, self.g - self.logweight())

    def moments(self):
        cov = np.linalg.inv(self.K)
        return cov, cov @ self.h

    def scale(self):
        parts = [abs(self.g), np.abs(self.h).max(initial=0.0), np.abs(self.K).max(initial=0.0)]
        return float(max(parts))

    def kl(self, other):
        """KL of the normalised versions."""
        other = other.reorder(self.vrs)
        S, m = self.moments()
        m2 = np.linalg.solve(other.K, other.h)
        d = m - m2
        return float(0.5 * (np.trace(other.K @ S) + d @ other.K @ d - len(self.vrs)
                            + np.linalg.slogdet(self.K)[1] - np.linalg.slogdet(other.K)[1]))


# --- readers ---------------------------------------------------------------------------------------------------------

def read(factor):
    """Turn a veroku factor into a reference object without touching the factor."""
    name = type(factor).__name__
    try:
        if name == "Categorical":
            return read_categorical(factor)
        if name == "SparseCategorical":
            return read_sparse(factor)
        if name == "Gaussian":
            return read_gaussian(factor)
        if name == "NonLinearGaussian":
            return read_nonlinear(factor)
    except (Violation, HarnessError):
        raise
    except Exception as e:
        raise Violation("malformed-factor", f"{name} cannot be read: {type(e).__name__}: {e}") from e
    raise Violation("wrong-type", f"unexpected result type {name}")


def read_categorical(f):
    vrs = list(f.var_names)
    t = np.array(f.log_probs_tensor, dtype=float, copy=True)
    if t.ndim != len(vrs):
        raise Violation("malformed-factor", f"variables {vrs} but tensor of shape {t.shape}")
    cards = tuple(int(c) for c in f.cardinalities)
    if cards != t.shape or tuple(int(f.var_cards[v]) for v in vrs) != t.shape:
        raise Violation("malformed-factor", f"cardinalities {f.var_cards}/{cards} for shape {t.shape} over {vrs}")
    return Table(vrs, t)


def read_sparse(f):
    vrs = list(f.var_names)
    shape = [int(f.var_cards[v]) for v in vrs]
    if [int(c) for c in f.cardinalities] != shape:
        raise Violation("malformed-factor", f"cardinalities {f.cardinalities} but variables {f.var_cards} over {vrs}")
    t = np.full(shape, float(f.default_log_prob))
    for a, lp in f.log_probs_table.items():
        if len(a) != len(vrs) or any(not 0 <= int(x) < n for x, n in zip(a, shape)):
            raise Violation("malformed-factor", f"assignment {a} outside {shape}")
        t[tuple(int(x) for x in a)] = float(lp)
    return Table(vrs, t)


def read_gaussian(f):
    g = f.copy()  # the lazily computed form is cached in the copy only
    vrs = list(g.var_names)
    return Gauss(vrs, g.get_prec(), g.get_h(), g.get_g())


def read_nonlinear(f):
    """Of a non-linear Gaussian: its joint distribution, or, as long as nothing is known about some of the conditioning
    variables, the joint distribution with standard normal distributions over them."""
    from veroku.factors.gaussian import Gaussian
    g = f.copy()
    joint = read_gaussian(g.joint_distribution)
    free = [v for v in g.conditioning_vars if v not in g.observed_evidence]
    if not free or joint.K.any():
        return joint
    n = len(free)
    return read_gaussian(g.multiply(Gaussian(var_names=free, cov=np.eye(n), mean=np.zeros([n, 1]), log_weight=0.0)).joint_distribution)


# --- comparison ------------------------------------------------------------------------------------------------------

def diff(actual, expected, tol, weight=True):
    """None if equal, otherwise a description. Tables are compared in the log domain, Gaussians by parameters."""
    if set(actual.vrs) != set(expected.vrs) or len(actual.vrs) != len(expected.vrs):
        return f"variables {actual.vrs}, expected {expected.vrs}"
    exp = expected.reorder(actual.vrs)
    if isinstance(exp, Table) != isinstance(actual, Table):
        return "different kinds"
    if isinstance(exp, Table):
        a, b = actual.logp, exp.logp
        if a.shape != b.shape:
            return f"shape {a.shape}, expected {b.shape} over {actual.vrs}"
        if np.isnan(a).any():
            return f"NaN in table over {actual.vrs}: {fmt(a)} expected {fmt(b)}"
        if not weight:
            a, b = a - lse(a), b - lse(b)
        if ((a == NEG) != (b == NEG)).any():
            return f"zeros differ over {actual.vrs}: {fmt(a)} expected {fmt(b)}"
        fin = b != NEG
        err = np.abs(a[fin] - b[fin])
        if err.size and not err.max() <= tol:
            return f"log values differ by {err.max():.3g} (tolerance {tol:.3g}) over {actual.vrs}: {fmt(a)} expected {fmt(b)}"
        return None
    worst = max(np.abs(actual.K - exp.K).max(initial=0.0), np.abs(actual.h - exp.h).max(initial=0.0))
    if weight:
        worst = max(worst, abs(actual.g - exp.g))
    if not worst <= tol:
        return (f"parameters differ by {worst:.3g} (tolerance {tol:.3g}) over {actual.vrs}: K={fmt(actual.K)} "
                f"h={fmt(actual.h)} g={actual.g:.6g} expected K={fmt(exp.K)} h={fmt(exp.h)} g={exp.g:.6g}")
    return None


def fmt(a):
    return np.array2string(np.asarray(a), precision=5, threshold=40, max_line_width=10 ** 6).replace("\n", "")[:500]


def product(factors):
    out = factors[0]
    for f in factors[1:]:
        out = out.multiply(f)
    return out
