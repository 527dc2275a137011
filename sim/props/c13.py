"""C13: sampling is replayable and faithful, and nothing else touches random or other process-wide state."""
import contextlib
import copy
import io
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np

from .. import models, refs, mix, nlg, seams, monitor, net as nets
from ..core import Violation, Skip, HarnessError
from . import c07, c08, c14, c15, c18, c19

ID = "C13"
PLAN = {"quick": 8000, "thorough": 300000}
RULE = ("one evaluation = one simulated run: (sampling) random states given by the scenario, a history of queries, copies, "
        "restarts and interrupts between sampling calls on a Gaussian, mixture or non-linear Gaussian; every call is replayed "
        "and the samples are tested against the reference distribution; or (activity) random process-wide settings followed by "
        "library activity (operation histories, graphs, threads, plots) with failing, interrupted and concurrent calls, after "
        "which all process-wide state must be as before. Distinct = distinct digest of scenario results; non-trivial = samples "
        "were drawn or an operation made.")
ASSUMPTIONS = ["reference in sim/refs.py is right",
               "statistical thresholds are passed by correct samplers with probability above 1 - 1e-8 per run",
               "settings under which NumPy raises or Python turns warnings into errors may make operations fail, but not "
               "change anything"]
COMPONENTS = {"real": ["Gaussian.sample", "GaussianMixture.sample", "NonLinearGaussian.sample", "make_random_gaussian", "ClusterGraph",
                       "factors", "plots (matplotlib Agg)"],
              "stub": ["NumPy's random state (seeded)", "iteration order of sets", "source of asynchronous exceptions",
                       "thread scheduling decisions"]}
N = 3000


# --- generation --------------------------------------------------------------------------------------------------------

def gen(rng, tier):
    r = rng.random()
    scn = gen_sampling(rng) if r < 0.4 else gen_random_gaussian(rng) if r < 0.45 else gen_activity(rng, tier)
    scn["set_order"] = rng.randrange(10 ** 6)
    return scn


def gen_sampling(rng):
    fam = rng.choice(["gauss", "gauss", "gauss", "mix", "mix", "nlg", "nlgmix"])
    n = rng.choice([1, 2, 2, 3, 4])
    vrs = models.names(rng, n + 2, rng.random() < 0.3)
    scn = {"kind": "sampling", "family": fam, "scope": vrs[:n], "seeds": [rng.randrange(2 ** 32) for _ in range(4)],
           "splits": [rng.randrange(1, 6) for _ in range(3)]}
    shift = rng.choice([0, 0, 0, -900, 900])
    spread = rng.choice([1, 1, 4])
    if fam in ("gauss", "mix"):
        scn["comps"] = []
        for _ in range(1 if fam == "gauss" else rng.choice([1, 2, 3, 4])):
            c = models.gauss_params(rng, n)
            s = 10.0 ** rng.choice([0, 0, 0, -2, 2])
            c["K"] = [[models.rnd6(x * s) for x in row] for row in c["K"]]
            c["h"] = [models.rnd6(x * spread * s ** 0.5) for x in c["h"]]
            c["g"] = models.rnd6(c["g"] + shift)
            scn["comps"].append(c)
    else:
        y = vrs[n:n + rng.choice([1, 2])]
        scn["nlg"] = nlg.params(rng, vrs[:n], y)
        scn["prior"] = [models.gauss_params(rng, n) for _ in range(1 if fam == "nlg" else rng.choice([1, 2, 3]))]
        scn["update"] = models.gauss_params(rng, len(y)) if rng.random() < 0.4 else None
        scn["observe"] = [models.rnd6(rng.uniform(-1, 1))] if rng.random() < 0.25 else None
    scn["history"] = [rng.choice(["getters", "copy", "deepcopy", "pickle", "equals", "text", "marginal", "interrupt", "fail",
                                  "potential", "normalize", "sample-copy", "cov-first", "plot"]) for _ in range(rng.choice([0, 1, 2, 4, 6]))]
    scn["x"] = [rng.random() for _ in range(4)]
    return scn


def gen_random_gaussian(rng):
    lo, width = models.rnd6(rng.uniform(-20, 20)), models.rnd6(rng.uniform(0.1, 30))
    clo, cwidth = models.rnd6(rng.uniform(0.1, 5)), models.rnd6(rng.uniform(0.1, 30))
    return {"kind": "random-gaussian", "n": rng.choice([1, 2, 3, 4]), "seed": rng.randrange(2 ** 32),
            "mean_range": rng.choice([None, [lo, lo + width]]), "cov_range": rng.choice([None, [clo, clo + cwidth]])}


def gen_activity(rng, tier):
    what = rng.choice(["ops", "ops", "ops", "graph", "graph", "graph", "graph", "threads", "nlg", "factorised", "names", "templates"])
    scn = {"kind": "activity", "what": what, "settings": gen_settings(rng)}
    if what == "ops":
        scn["sub"] = c07.gen(rng, tier)
    elif what == "nlg":
        scn["sub"] = (c14.gen_split if rng.random() < 0.2 else c14.gen_factor)(rng)
    elif what in SUB:
        scn["sub"] = SUB[what].gen(rng, tier)
    elif what == "threads":
        scn["sub"] = c08.gen(rng, tier)
    else:
        fam = rng.choice(["cat", "sparse", "gauss"])
        scn["spec"] = models.model(rng, "tree" if fam == "gauss" else rng.choice(["tree", "loopy"]), fam, rng.choice([1, 2, 3, 4]),
                                   zero_rate=0 if fam == "gauss" else rng.choice([0, 0.2]), joint_limit=300, max_scope=3, max_card=3,
                                   n_vars=4)
        if rng.random() < 0.12:
            scn["spec"] = nlg.model(rng)
        scn["ops"] = [[rng.choice(["build", "process", "process", "marginal", "joint", "repr", "show-factor", "df", "pickle", "deepcopy",
                                   "plot-gains", "plot-convergence", "plot-factor", "fail-build", "fail-marginal", "wrong-evidence"]),
                       rng.randrange(1000), rng.random() if rng.random() < 0.25 else None]
                      for _ in range(rng.choice([2, 4, 8]))]
    return scn


SUB = {"factorised": c18, "names": c19, "templates": c15}


def gen_settings(rng):
    modes = ["ignore", "warn", "ignore", "warn", "raise"] if rng.random() < 0.2 else ["ignore", "warn"]
    return {"np_seed": rng.randrange(2 ** 32), "py_seed": rng.randrange(2 ** 32),
            "burn": rng.randrange(0, 700),
            "err": {k: rng.choice(modes) for k in ("divide", "over", "under", "invalid")},
            "print": {"precision": rng.randrange(0, 12), "suppress": rng.random() < 0.5, "threshold": rng.choice([2, 10, 1000]),
                      "linewidth": rng.choice([20, 75, 200])},
            "filters": [[rng.choice(["ignore", "default", "always", "once"] + (["error"] if rng.random() < 0.1 else [])),
                         rng.choice(["Warning", "RuntimeWarning", "UserWarning", "DeprecationWarning"])]
                        for _ in range(rng.randrange(0, 4))],
            "recursion": rng.choice([1000, 1500, 4000]), "env": rng.choice([None, "1"]),
            "rc": {"figure.figsize": [rng.randrange(3, 9), rng.randrange(3, 9)], "font.size": rng.randrange(8, 16)}}


# --- execution -----------------------------------------------------------------------------------------------------------

def execute(scn, ctx):
    with seams.set_order(scn["set_order"]):
        {"sampling": run_sampling, "random-gaussian": run_random_gaussian, "activity": run_activity}[scn["kind"]](scn, ctx)


def real(scn):
    fam = scn["family"]
    sub = {"family": "gauss"}
    if fam == "gauss":
        return models.real_factor(dict(scn["comps"][0], scope=scn["scope"]), sub)
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture
    if fam == "mix":
        return GaussianMixture([models.real_factor(dict(c, scope=scn["scope"]), sub) for c in scn["comps"]])
    f = nlg.real(scn["nlg"])
    priors = [models.real_factor(dict(c, scope=scn["scope"]), sub) for c in scn["prior"]]
    if fam == "nlgmix":
        from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussianMixture
        f = NonLinearGaussianMixture([f], split_singles_before_absorb=False)
        f = f.multiply(GaussianMixture(priors))
    else:
        f = f.multiply(priors[0])
    if scn["update"]:
        f = f.multiply(models.real_factor(dict(scn["update"], scope=scn["nlg"]["y"]), sub))
    if scn["observe"]:
        f = f.reduce(scn["nlg"]["y"][:1], scn["observe"])
    return f


def reference(scn):
    fam = scn["family"]
    if fam in ("gauss", "mix"):
        return mix.Mix([refs.Gauss(scn["scope"], c["K"], c["h"], c["g"]) for c in scn["comps"]])
    out = []
    for c in scn["prior"]:
        g = nlg.ref(scn["nlg"]).multiply(refs.Gauss(scn["scope"], c["K"], c["h"], c["g"]))
        if scn["update"]:
            u = scn["update"]
            g = g.multiply(refs.Gauss(scn["nlg"]["y"], u["K"], u["h"], u["g"]))
        if scn["observe"]:
            g = g.reduce({scn["nlg"]["y"][0]: scn["observe"][0]})
        out.append(g)
    return mix.Mix(out)


def state_key():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


def draw(f, seed, sizes):
    np.random.seed(seed)
    out = [np.array(f.sample(k), dtype=float) for k in sizes]
    return np.concatenate([o.reshape(o.shape[0], -1) for o in out], axis=1), state_key()


def run_sampling(scn, ctx):
    f, want = real(scn), reference(scn)
    if min(np.linalg.eigvalsh(c.K).min() for c in want.comps) < 1e-9:
        raise Skip("improper")
    ctx.count(f"runs: sampling, {scn['family']}")
    value = mix.read(f.joint_distribution if "nlg" in scn["family"] else f)
    big = max(c.scale() for c in want.comps)
    seeds, splits = scn["seeds"], scn["splits"]
    py = random.getstate()
    ctx.nontrivial = True
    other = copy.deepcopy(f)
    first, after = draw(f, seeds[0], splits)
    d, k = first.shape
    free = [v for v in f.var_names if not (scn.get("observe") and v == scn["nlg"]["y"][0])]
    if k != sum(splits) or d != len(free) or not np.isfinite(first).all():
        raise Violation("bad-samples", f"{sum(splits)} samples asked for {free}: array of shape {first.shape}, {refs.fmt(first)}")
    for step, (name, x) in enumerate(zip(scn["history"], scn["x"] * 2)):
        ctx.step()
        before = state_key()
        f = history(name, f, x, scn, ctx)
        if name not in ("sample-copy", "interrupt") and state_key() != before:
            raise Violation("randomness-consumed", f"{name} changed NumPy's random state")
        got = mix.read(f.joint_distribution if "nlg" in scn["family"] else f)
        diff = mix.diff(got, value, 1e-6 * (1 + big))
        if diff:
            raise Violation("factor-changed", f"after {name}: {diff}")
        again, after2 = draw(f, seeds[0], splits)
        same(first, again, name)
        if after2 != after:
            raise Violation("not-replayable", f"after {name}: the random state afterwards is different")
        ctx.count("replays compared")
    same(first, draw(other, seeds[0], splits)[0], "nothing (another factor with the same value)")
    if random.getstate() != py:
        raise Violation("randomness-consumed", "Python's random state was changed")
    differs, _ = draw(f, seeds[1], splits)
    if k > 1 and np.abs(differs - first).max() == 0:
        raise Violation("not-random", "another seed gives the same samples")
    samples, _ = draw(f, seeds[2], [N])
    faithful(samples, want, free, scn, ctx)
    ctx.log(scn["family"], scn["history"], refs.fmt(np.round(first, 4)))


def same(a, b, name):
    tol = 1e-6 * (1 + np.abs(a).max())
    if a.shape != b.shape or not np.abs(a - b).max() <= tol:
        raise Violation("not-replayable", f"after {name}: samples {refs.fmt(b)}, before {refs.fmt(a)}")


def history(name, f, x, scn, ctx):
    ctx.count(f"between samples: {name}")
    fam = scn["family"]
    with contextlib.redirect_stdout(io.StringIO()):
        if name == "copy":
            return f.copy()
        if name == "deepcopy":
            return copy.deepcopy(f)
        if name == "pickle" and "nlg" not in fam:
            return pickle.loads(pickle.dumps(f))
        if name == "fail":
            try:
                f.marginalize(["no such variable"], keep=True)
            except Exception:  # pylint: disable=broad-except
                pass
            return f
        if name == "interrupt":
            meter = monitor.Interrupter()
            with monitor.Instants(meter):
                f.sample(2)
            trap = monitor.Interrupter(int(x * meter.count), KeyboardInterrupt("injected by the simulator"))
            try:
                with monitor.Instants(trap):
                    f.sample(2)
            except KeyboardInterrupt:
                ctx.count("fault: interrupt in sample")
            return f
        if name == "sample-copy":
            f.copy().sample(3)
            return f
        if name == "equals" and fam != "nlgmix":
            f.equals(f.joint_distribution if fam == "nlg" else f.copy())
        elif name == "text":
            repr(f)
            if fam != "nlgmix":
                f.show()
        elif name == "marginal":
            f.marginalize([[v for v in f.var_names if not scn.get("observe") or v != scn["nlg"]["y"][0]][0]], keep=True)
        elif name == "normalize" and fam != "nlgmix":
            f.normalize()
        elif name == "potential" and fam == "gauss":
            f.log_potential([0.5] * f.dim)
        elif name == "getters" and fam in ("gauss", "nlg"):
            for g in ("get_prec", "get_h", "get_g")[: 1 + int(x * 3)]:
                getattr(f, g)()
        elif name == "cov-first" and fam in ("gauss", "nlg"):
            for g in ("get_cov", "get_mean", "get_log_weight")[: 1 + int(x * 3)]:
                getattr(f, g)()
        elif name == "plot" and fam in ("gauss", "mix") and len(f.var_names) == 1 and x < 0.3:
            import matplotlib.pyplot as plt
            f.plot()
            plt.close("all")
        return f


def faithful(samples, want, free, scn, ctx):
    """Moments, distribution of projections, and independence of successive samples."""
    n = samples.shape[1]
    perm = [want.vrs.index(v) for v in free]
    cov, mean = want.moments()
    cov, mean = cov[np.ix_(perm, perm)], mean[perm]
    L = np.linalg.cholesky(cov)
    z = np.linalg.solve(L, samples - mean.reshape(-1, 1))
    lw = np.array([c.logweight() for c in want.comps])
    w = np.exp(lw - refs.lse(lw))
    if len(want.comps) == 1:
        m = z.mean(axis=1) * np.sqrt(n)
        if np.abs(m).min() <= 1e-10 and n > len(z) + 1:
            raise Violation("dependent-samples", f"mean of {n} samples is exact over {free}: they are not independent draws")
        if not np.abs(m).max() <= 7:
            raise Violation("unfaithful", f"mean of {n} samples is {np.abs(m).max():.3g} standard errors off over {free}: "
                                          f"{refs.fmt(samples.mean(axis=1))} expected {refs.fmt(mean)}")
        c = (z @ z.T / n - np.eye(len(z))) * np.sqrt(n / 2)
        if not np.abs(c).max() <= 8:
            raise Violation("unfaithful", f"covariance of {n} samples is {np.abs(c).max():.3g} standard errors off over {free}: "
                                          f"{refs.fmt(np.cov(samples))} expected {refs.fmt(cov)}")
    rng = np.random.RandomState(len(free) + 17)
    directions = list(np.eye(len(z))) + [rng.normal(size=len(z)) for _ in range(3)]
    moments = [(c.moments()[0][np.ix_(perm, perm)], c.moments()[1][perm]) for c in want.comps]
    from scipy.special import ndtr
    for u in directions:
        p = u @ samples
        x = np.sort(p)
        cdf = sum(wk * ndtr((x - u @ m) / np.sqrt(u @ C @ u)) for wk, (C, m) in zip(w, moments))
        grid = np.arange(n)
        ks = max((cdf - grid / n).max(), ((grid + 1) / n - cdf).max()) * np.sqrt(n)
        if not ks <= 3.4:
            raise Violation("unfaithful", f"distribution of {n} samples along {refs.fmt(u)} over {free} differs (Kolmogorov-Smirnov "
                                          f"{ks:.3g}): mean {p.mean():.5g} expected {u @ mean:.5g}, variance {p.var():.5g} "
                                          f"expected {u @ cov @ u:.5g}")
        q = cdf[np.argsort(np.argsort(p))] - 0.5   # in the order drawn, uniform on (-1/2, 1/2)
        for lag in (1, 2):
            r = (q[:-lag] * q[lag:]).mean() * 12 * np.sqrt(n - lag)
            if not abs(r) <= 8:
                raise Violation("dependent-samples", f"samples {lag} apart are correlated ({r:.3g} standard errors) along {refs.fmt(u)}")
    ctx.count("sample sets tested against the distribution")
    ctx.count("samples drawn", n)


def run_random_gaussian(scn, ctx):
    from veroku.factors.gaussian import make_random_gaussian
    n = scn["n"]
    vrs = [f"v{i}" for i in range(n)]
    kw = {k: list(scn[k]) for k in ("mean_range", "cov_range") if scn[k] is not None}

    def draws(count):
        np.random.seed(scn["seed"])
        return [make_random_gaussian(list(vrs), **kw) for _ in range(count)]
    ctx.count("runs: make_random_gaussian")
    ctx.nontrivial = True
    a, b = draws(3), draws(3)
    for f, g in zip(a, b):
        d = refs.diff(refs.read(f), refs.read(g), 0.0)
        if d or f.var_names != vrs:
            raise Violation("not-replayable", f"make_random_gaussian: {d or f.var_names}")
    mr, cr = scn["mean_range"] or [-10, 10], scn["cov_range"] or [1, 10]
    means, covs = [], []
    for f in draws(400):
        C, m = np.array(f.get_cov()), np.array(f.get_mean()).ravel()
        if np.abs(C - np.diag(np.diag(C))).max() > 1e-9 * cr[1]:
            raise Violation("unfaithful", f"covariance {refs.fmt(C)}")
        means += list((m - mr[0]) / (mr[1] - mr[0]))
        covs += list((np.diag(C) - cr[0]) / (cr[1] - cr[0]))
        ctx.step()
    for name, u in (("mean", means), ("variance", covs)):
        x = np.sort(u)
        k = len(x)
        if x[0] < -1e-9 or x[-1] > 1 + 1e-9:
            raise Violation("unfaithful", f"{name} outside the range")
        ks = max((x - np.arange(k) / k).max(), ((np.arange(k) + 1) / k - x).max()) * np.sqrt(k)
        if not ks <= 3.4:
            raise Violation("unfaithful", f"{name} is not uniform on the range (Kolmogorov-Smirnov {ks:.3g})")
    ctx.log(scn["seed"], refs.fmt(means[:3]))


# --- process-wide state ----------------------------------------------------------------------------------------------------

def snapshot():
    import matplotlib
    import pandas
    from pandas._config import config
    return {"numpy random state": state_key(), "python random state": random.getstate(), "numpy error handling": np.geterr(),
            "numpy error callback": np.geterrcall(), "numpy print options": {k: repr(v) for k, v in np.get_printoptions().items()},
            "warning filters": [tuple(map(repr, f)) for f in warnings.filters], "warning function": warnings.showwarning,
            "environment": dict(os.environ), "working directory": os.getcwd(), "files in it": sorted(os.listdir(".")),
            "recursion limit": sys.getrecursionlimit(), "matplotlib settings": {k: repr(v) for k, v in dict.items(matplotlib.rcParams)},
            "pandas options": repr(config._global_config), "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
            "signal handlers": (signal.getsignal(signal.SIGINT), signal.getsignal(signal.SIGTERM)), "trace": (sys.gettrace(), sys.getprofile()),
            "excepthooks": (sys.excepthook, threading.excepthook), "path": list(sys.path), "threads": [t.name for t in threading.enumerate() if t.name != "tqdm_monitor"],
            "switch interval": sys.getswitchinterval(), "figures": 0}


@contextlib.contextmanager
def settings(s):
    """The user's settings, in a scratch working directory; everything is put back afterwards."""
    import matplotlib
    old = {"np": np.random.get_state(), "py": random.getstate(), "err": np.geterr(), "print": np.get_printoptions(),
           "filters": list(warnings.filters), "rec": sys.getrecursionlimit(), "env": dict(os.environ), "cwd": os.getcwd(),
           "rc": dict(dict.items(matplotlib.rcParams))}
    scratch = tempfile.mkdtemp(prefix="veroku-c13-")
    try:
        os.chdir(scratch)
        np.random.seed(s["np_seed"])
        if s["burn"]:
            np.random.normal(size=s["burn"])
        random.seed(s["py_seed"])
        np.seterr(**s["err"])
        np.set_printoptions(**s["print"])
        for action, cat in s["filters"]:
            warnings.filterwarnings(action, category=getattr(__builtins__, cat, None) or getattr(__import__("builtins"), cat))
        sys.setrecursionlimit(s["recursion"])
        if s["env"]:
            os.environ["VEROKU_SIM_USER_SETTING"] = s["env"]
        for k, v in s["rc"].items():
            matplotlib.rcParams[k] = v
        yield
    finally:
        os.chdir(old["cwd"])
        shutil.rmtree(scratch, ignore_errors=True)
        np.random.set_state(old["np"])
        random.setstate(old["py"])
        np.seterr(**old["err"])
        np.set_printoptions(**old["print"])
        warnings.filters[:] = old["filters"]
        warnings._filters_mutated()
        sys.setrecursionlimit(old["rec"])
        for k in set(os.environ) - set(old["env"]):
            del os.environ[k]
        os.environ.update(old["env"])
        dict.update(matplotlib.rcParams, old["rc"])


class SubCtx:
    """Receives the counts of another check's run."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.nontrivial = False
        self.key = None

    def count(self, name, n=1):
        if name.startswith("fault"):
            self.ctx.count(name, n)

    def log(self, *items):
        self.ctx.log(*items)

    def step(self, n=1):
        self.ctx.step(n)


def run_activity(scn, ctx):
    s = scn["settings"]
    ctx.count(f"runs: activity, {scn['what']}")
    ctx.nontrivial = True
    monitor.codes()
    with monitor.Instants(lambda code, kind: None):
        pass   # the simulator's own tools are installed before the snapshot
    with contextlib.redirect_stderr(io.StringIO()), settings(s):
        first = snapshot()

        def check(what):
            now = snapshot()
            for k, v in first.items():
                if now[k] != v:
                    raise Violation("global-state-changed", f"{what}: {k} changed: {describe(v, now[k])}")
            ctx.count("snapshots compared")
        try:
            if scn["what"] == "graph":
                run_graph(scn, ctx, check)
            else:
                sub = scn["sub"]
                mod = {"ops": c07.run, "nlg": c14.run_split if sub.get("kind") == "split" else c14.run_factor, "threads": None,
                       "factorised": c18.run, "templates": c15.run,
                       "names": c19.run_factor if sub.get("kind") == "factor" else c19.run_graph}[scn["what"]]
                try:
                    if mod is None:
                        {"factors": c08.run_factors, "nlg": c08.run_nlg, "graph": c08.run_graph}[sub["kind"]](sub, SubCtx(ctx))
                    else:
                        mod(sub, SubCtx(ctx))
                except Skip:
                    pass
                except HarnessError:
                    raise
                except Exception:  # pylint: disable=broad-except
                    ctx.count("operation failed")   # for other checks to judge; here, only what it leaves behind
        finally:
            import matplotlib.pyplot as plt
            plt.close("all")
        check(f"activity {scn['what']}")
    ctx.log(scn["what"], s["np_seed"])


def describe(a, b):
    if isinstance(a, dict):
        keys = [k for k in sorted(set(a) | set(b), key=str) if a.get(k) != b.get(k)]
        return "; ".join(f"{k}: {a.get(k)} -> {b.get(k)}" for k in keys)[:400]
    if isinstance(a, tuple) and a and a[0] == "MT19937":
        return f"position {a[2]} -> {b[2]}"
    return f"{str(a)[:200]} -> {str(b)[:200]}"


def run_graph(scn, ctx, check):
    spec = scn["spec"]
    state = {"cg": None}
    for op in scn["ops"]:
        ctx.step()
        ctx.count(f"activity: {op[0]}")
        trap = None

        def call():
            with contextlib.redirect_stdout(io.StringIO()):
                perform(op, state, spec)
        try:
            if op[2] is not None:
                trap = monitor.Interrupter(int(2000 ** op[2]), KeyboardInterrupt("injected by the simulator"))
                with monitor.Instants(trap):
                    call()
            else:
                call()
        except KeyboardInterrupt:
            if trap is None or not trap.fired:
                raise
            ctx.count(f"fault: interrupt in {op[0]}")
        except Exception as e:  # pylint: disable=broad-except
            if isinstance(e, (Violation, HarnessError)):
                raise
            ctx.count("fault: operation failed")   # other checks decide whether it may; here, what it leaves behind
        import matplotlib.pyplot as plt
        plt.close("all")
        check(f"{op[0]}{' (interrupted)' if trap and trap.fired else ''}")


def perform(op, state, spec):
    import matplotlib.pyplot as plt
    kind, r = op[0], op[1]
    if state["cg"] is None or kind == "build":
        state["cg"] = models.build_graph(spec)
    cg = state["cg"]
    scopes = [[v for v in f["scope"] if v not in spec["evidence"] and v not in spec["special"]] for f in spec["factors"]]
    scopes = [s for s in scopes if s] or [[]]
    factor = models.build_factors(spec)[r % len(spec["factors"])]
    if kind == "process":
        cg.process_graph(tol=[1e-1, 1e-6, 1e-12][r % 3], max_iter=1 + r % 4)
    elif kind == "marginal" and scopes[0]:
        cg.get_marginal(scopes[r % len(scopes)])
    elif kind == "joint":
        cg.get_posterior_joint()
    elif kind == "repr":
        repr(factor)
        str(cg)
    elif kind == "show-factor":
        factor.show()
    elif kind == "df" and hasattr(factor, "get_df"):
        factor.get_df()
    elif kind == "pickle":
        pickle.loads(pickle.dumps(cg))
    elif kind == "deepcopy":
        copy.deepcopy(cg)
    elif kind == "plot-gains":
        cg.plot_next_messages_info_gain(legend_on=bool(r % 2))
    elif kind == "plot-convergence":
        cg.plot_message_convergence(log=bool(r % 2))
    elif kind == "plot-factor":
        plot(factor, r)
    elif kind == "fail-build":
        from veroku.cluster_graph import ClusterGraph
        ClusterGraph(models.build_factors(spec), special_evidence={"a": "not a value", **spec["special"]}, evidence={scopes[0][0]: "x"} if scopes[0] else {})
    elif kind == "fail-marginal":
        cg.get_marginal(["no such variable"])
    elif kind == "wrong-evidence":
        factor.reduce(["no such variable"], [1])
    plt.close("all")


def plot(f, r):
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture
    if type(f).__name__ == "Gaussian" and len(f.var_names) <= 2:
        if r % 3 == 0:
            f = GaussianMixture([f, f.copy()])
        if len(f.var_names) == 2 and r % 8:    # slow
            return
        f.plot(log=bool(r % 2), xlim=[-1.0, 2.0] if r % 5 == 0 else None, ylim=[-2.0, 1.0] if r % 5 == 0 else None)
    elif type(f).__name__ == "Categorical":
        f.plot()


# --- shrinking -------------------------------------------------------------------------------------------------------------

def shrink(scn):
    if scn["kind"] == "sampling":
        for items in nets.shrink_list(scn["history"]):
            yield dict(scn, history=items)
        if len(scn.get("comps", [])) > 1:
            for i in range(len(scn["comps"])):
                yield dict(scn, comps=scn["comps"][:i] + scn["comps"][i + 1:])
        return
    if scn["kind"] != "activity":
        return
    if scn["what"] == "graph":
        for items in nets.shrink_list(scn["ops"]):
            yield dict(scn, ops=items)
        for spec in models.shrink_spec(scn["spec"]):
            if spec["factors"]:
                yield dict(scn, spec=spec)
        return
    mod = {"ops": c07, "nlg": c14, "threads": c08, **SUB}[scn["what"]]
    for sub in mod.shrink(scn["sub"]):
        yield dict(scn, sub=sub)
