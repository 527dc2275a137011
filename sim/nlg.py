"""Non-linear Gaussian factors with affine transforms, and the linear Gaussian that they are equivalent to."""
import numpy as np

from . import models, refs


def params(rng, x, y, exotic=0.0):
    """p(y | x) = N(y; A x + b, Q), times exp(logw)."""
    n, m = len(x), len(y)
    L = np.array([[rng.uniform(-0.7, 0.7) for _ in range(m)] for _ in range(m)])
    Q = L @ L.T + np.eye(m) * rng.uniform(0.3, 1.5)
    return {"x": list(x), "y": list(y), "A": [[models.rnd6(rng.uniform(-1.5, 1.5)) for _ in range(n)] for _ in range(m)],
            "b": [models.rnd6(rng.uniform(-1, 1)) if rng.random() < 0.6 else 0.0 for _ in range(m)],
            "Q": [[models.rnd6(Q[min(i, j), max(i, j)]) for j in range(m)] for i in range(m)],
            "logw": models.rnd6(rng.uniform(-1, 1)) if rng.random() < 0.4 else 0.0}


class Affine:
    """The transform. It looks the variables up by name, since it may be given them in any order."""

    def __init__(self, p):
        self.x, self.A, self.b = list(p["x"]), np.array(p["A"], dtype=float), np.array(p["b"], dtype=float).reshape(-1, 1)

    def __call__(self, points, var_names):
        if sorted(var_names) != sorted(self.x) or points.shape[0] != len(self.x):
            raise TransformMisused(f"points of shape {points.shape} over {var_names}, conditioning variables {self.x}")
        return self.A[:, [self.x.index(v) for v in var_names]] @ points + self.b


class TransformMisused(Exception):
    pass


def real(p, owned=None):
    """The real factor. What it is made from (and goes on belonging to the caller) is added to owned."""
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussian
    args = {"noise_cov": np.array(p["Q"], dtype=float)}
    for name in ("conditioning_factor", "conditional_update_factor"):
        if p.get(name):
            args[name] = models.real_factor(p[name], {"family": "gauss"})
    lists = [list(p["x"]), list(p["y"])]
    out = NonLinearGaussian(*lists, Affine(p), log_weight=p["logw"], **args)
    if owned is not None:
        owned += list(args.values()) + lists
    return out


def ref(p):
    A, b, Q = np.array(p["A"], dtype=float), np.array(p["b"], dtype=float), np.array(p["Q"], dtype=float)
    P = np.linalg.inv(Q)
    K = np.block([[A.T @ P @ A, -A.T @ P], [-P @ A, P]])
    h = np.concatenate([-A.T @ P @ b, P @ b])
    g = p["logw"] - 0.5 * b @ P @ b - 0.5 * np.linalg.slogdet(2 * np.pi * Q)[1]
    return refs.Gauss(p["x"] + p["y"], K, h, g)


def shuffled(rng, p):
    """The same factor with its variables in another order."""
    i, j = list(range(len(p["x"]))), list(range(len(p["y"])))
    rng.shuffle(i)
    rng.shuffle(j)
    return dict(p, x=[p["x"][k] for k in i], y=[p["y"][k] for k in j], A=[[p["A"][b][a] for a in i] for b in j],
                b=[p["b"][k] for k in j], Q=[[p["Q"][a][b] for b in j] for a in j])


def model(rng):
    """A random acyclic model of Gaussian and affine non-linear factors. Its specification is that of the equivalent linear
    Gaussian model, in which those factors that are to be made as non-linear ones are marked."""
    from .props import c14
    scn = c14.gen_graph(rng, "quick")
    spec = c14.equivalent(scn)
    for f, out in zip(scn["factors"], spec["factors"]):
        if f["kind"] == "nlg":
            out["nlg"] = {k: x for k, x in f.items() if k != "kind"}
    return dict(spec, structure="tree", affine=True)


def as_factor(p):
    """The equivalent Gaussian factor of a specification (for models.Truth)."""
    g = ref(p)
    return {"scope": g.vrs, "K": g.K.tolist(), "h": g.h.tolist(), "g": g.g, "form": "can"}
