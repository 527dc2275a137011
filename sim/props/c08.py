"""C08: several threads query one shared graph, or shared factors, at the same time."""
import contextlib
import copy
import io
import pickle

import numpy as np

from .. import models, refs, mix, nlg, seams, threads
from ..core import Violation, Skip, HarnessError
from . import c07, c18

ID = "C08"
PLAN = {"quick": 16000, "thorough": 600000}
RULE = ("one evaluation = one simulated run: 2-4 reader threads with queries on shared factors (dense, sparse, Gaussian in one "
        "or the other form, mixtures, non-linear Gaussians) or on one processed cluster graph, executed one at a time under a "
        "seeded schedule that preempts them at instants inside the library; every result is compared with the result of the "
        "same call made alone. Distinct = distinct digest of queries and preemption points; non-trivial = a thread was "
        "preempted in the middle of a library call while another one ran.")
ASSUMPTIONS = ["threads are switched where CPython 3.12 switches them: function entry, backward jump, return from a native "
               "call", "NumPy and the other libraries are thread safe for calls on separate or read-only arguments"]
COMPONENTS = {"real": ["ClusterGraph queries", "factors", "Python threads"],
              "stub": ["thread scheduling decisions (seeded)", "iteration order of sets"]}

QUERIES = [q for q in c07.BINARY + c07.UNARY + c07.ASK if q != "text"] + ["moments", "moments", "potential", "getters", "getters",
                                                                          "getters", "deepcopy", "text", "kl", "equals"]


def gen(rng, tier):
    r = rng.random()
    n_threads = rng.choice([2, 2, 3, 4])
    scn = {"threads": [], "set_order": rng.randrange(10 ** 6), "schedule": threads.gen_schedule(rng, n_threads)}
    if r < 0.5:
        scn["kind"] = "factors"
        while True:
            base = c07.gen(rng, tier)
            if base["family"] in ("gauss", "mix") or rng.random() < 0.4:
                break
        base["init"] = base["init"][:2]
        scn["base"] = {k: base[k] for k in ("family", "cards", "init")}
        for _ in range(n_threads):
            scn["threads"].append([{"op": rng.choice(QUERIES), "i": rng.randrange(1000), "j": rng.randrange(1000),
                                    "r": [rng.randrange(1000) for _ in range(6)],
                                    "x": [models.rnd6(rng.uniform(-2, 2)) for _ in range(6)]}
                                   for _ in range(rng.choice([1, 2, 3]))])
    elif r < 0.6:
        scn["kind"] = "factorised"
        queries = [q for q in c18.OPS if q not in ("make", "show")]
        if rng.random() < 0.5:
            queries = rng.sample(queries, rng.choice([1, 1, 2]))
        same = rng.randrange(1000) if rng.random() < 0.5 else None
        base = c18.gen(rng, tier)
        scn["init"] = base["init"]
        scn["makes"] = [base["ops"][0]["r"] for base in (base, c18.gen(rng, tier))][:rng.choice([1, 1, 2])]
        for _ in range(n_threads):
            scn["threads"].append([{"op": rng.choice(queries),
                                    "i": rng.randrange(1000) if same is None else same, "j": rng.randrange(1000),
                                    "r": [rng.randrange(1000) for _ in range(6)],
                                    "x": [models.rnd6(rng.uniform(-2, 2)) for _ in range(6)]}
                                   for _ in range(rng.choice([1, 2, 3]))])
    elif r < 0.72:
        scn["kind"] = "nlg"
        n = rng.choice([1, 1, 2])
        m = rng.choice([1, 2])
        scn["nlg"] = {"x": [f"x{i}" for i in range(n)], "y": [f"y{i}" for i in range(m)],
                      "M": [[models.rnd6(rng.uniform(-1.5, 1.5)) for _ in range(n)] for _ in range(m)],
                      "Q": [models.rnd6(rng.uniform(0.3, 2)) for _ in range(m)],
                      "prior": models.gauss_params(rng, n), "update": models.gauss_params(rng, m) if rng.random() < 0.5 else None,
                      "observe": rng.choice([None, None, models.rnd6(rng.uniform(-1, 1))])}
        same = rng.random() < 0.5
        for _ in range(n_threads):
            if same:
                scn["threads"].append([[rng.choice(["prec", "h", "g", "cov", "mean", "logw"]), 0]
                                       for _ in range(rng.choice([1, 2, 3, 4]))])
                continue
            scn["threads"].append([[rng.choice(["joint", "prec", "h", "g", "cov", "mean", "logw", "marg-x", "marg-y", "equals",
                                                "normalize", "multiply", "copy"]), rng.randrange(1000)]
                                   for _ in range(rng.choice([1, 2, 3]))])
    else:
        scn["kind"] = "graph"
        fam = rng.choice(["cat", "gauss", "gauss", "sparse"])
        scn["spec"] = models.model(rng, rng.choice(["tree", "tree", "loopy"]) if fam != "gauss" else "tree", fam,
                                   rng.choice([1, 2, 3, 4]), zero_rate=0 if fam == "gauss" else rng.choice([0, 0.2]),
                                   joint_limit=300 if fam != "sparse" else 60, max_scope=3, max_card=3, n_vars=4,
                                   exotic=False)
        scn["rounds"] = rng.choice([0, 1, 2, 20])
        if rng.random() < 0.12:
            scn["spec"], scn["rounds"] = nlg.model(rng), 30
        for _ in range(n_threads):
            scn["threads"].append([[rng.choice(["marginal", "marginal", "marginal", "joint", "deepcopy", "pickle"]),
                                    rng.randrange(1000), rng.randrange(1000)] for _ in range(rng.choice([1, 2, 3]))])
    if rng.random() < 0.65:
        scn["rare"] = rng.choice([2, 5, 5, 20])
    if rng.random() < 0.15:
        scn["kills"] = {str(rng.randrange(n_threads)): int(1000 ** rng.random())}
    return scn


def execute(scn, ctx):
    with seams.set_order(scn["set_order"]):
        {"factors": run_factors, "nlg": run_nlg, "graph": run_graph, "factorised": run_factorised}[scn["kind"]](scn, ctx)


def concurrently(jobs, scn, ctx, watch=None):
    """Run the jobs under the schedule; returns their results. watch(scheduler) is called first."""
    with contextlib.redirect_stdout(io.StringIO()):
        sched = threads.Scheduler(jobs, scn["schedule"], scn.get("kills"), scn.get("rare"))
        if watch:
            watch(sched)
        finished = sched.run()
    if not finished:
        raise Violation("deadlock", "threads wait for each other forever")
    ctx.step(sum(w.instants for w in sched.workers))
    ctx.count("threads", len(jobs))
    ctx.count("preemptions inside the library", len(sched.points))
    for p in sched.points:
        ctx.log(p)
    ctx.nontrivial = bool(sched.points)
    for w in sched.workers:
        if w.index in sched.killed:
            ctx.count("fault: thread stopped by an exception inside the library")
            ctx.log("killed", w.index, w.error)
            if w.error is None:
                raise Violation("exception-swallowed", f"thread {w.index} was stopped by an exception, but went on")
            if isinstance(w.error, threads.Killed):
                w.result = None
                continue
        if w.error is not None:
            if not isinstance(w.error, Exception) or isinstance(w.error, (HarnessError, AssertionError)) and not lib(w.error):
                raise w.error
            raise Violation(f"thread-failed-{type(w.error).__name__}", f"thread {w.index}: {w.error}") from w.error
    return [w.result for w in sched.workers]


def lib(e):
    from ..core import in_repo
    return in_repo(e.__traceback__)


# --- factors ---------------------------------------------------------------------------------------------------------

def factor_call(op, pool, base):
    """The call of a query (made by a thread), and its comparison; None if outside of the domain."""
    e = pool[op["i"] % len(pool)]
    f, ref = e["real"], e["ref"]
    if op["op"] == "getters":
        if type(f).__name__ != "Gaussian" or not c07.proper(ref):
            return None
        names = [["get_prec", "get_h", "get_g", "get_cov", "get_mean", "get_log_weight"][k % 6] for k in op["r"][:3]]
        return (lambda: [getattr(f, n)() for n in names]), ref, ("getters", names)
    if op["op"] == "deepcopy":
        return (lambda: copy.deepcopy(f)), ref, "factor"
    try:
        return c07.plan(op, pool, base)
    except c07.NotApplicable:
        return None


def check_getters(got, ref, names):
    cov, mean = ref.moments()
    want = {"get_prec": ref.K, "get_h": ref.h, "get_g": ref.g, "get_cov": cov, "get_mean": mean, "get_log_weight": ref.logweight()}
    for n, x in zip(names, got):
        y = np.asarray(want[n], dtype=float)
        if x is None:
            raise Violation("reader-got-nothing", f"{n} returned None")
        x = np.asarray(x, dtype=float)
        if x.size != y.size or not np.abs(x.reshape(y.shape) - y).max() <= 1e-6 * (1 + np.abs(y).max()) * max(1, y.size):
            raise Violation("reader-got-wrong-value", f"{n}: {refs.fmt(x)}, expected {refs.fmt(y)}")


def run_factors(scn, ctx):
    base = scn["base"]
    pool = [{"real": c07.build(f, base), "ref": c07.build_ref(f, base)} for f in base["init"]]
    plans = []
    for ops in scn["threads"]:
        mine = []
        for op in ops:
            p = factor_call(op, pool, base)
            if p is not None:
                mine.append((op, p))
        plans.append(mine)
    if sum(1 for m in plans if m) < 2:
        raise Skip("fewer than two threads with a possible query")
    ctx.log(base["family"], [[op["op"] for op, _ in m] for m in plans])
    jobs = [lambda m=m: [call() for _, (call, _, _) in m] for m in plans]
    results = concurrently(jobs, scn, ctx)
    for mine, got in zip(plans, results):
        for (op, (_, want, how)), value in zip(mine, got or []):
            ctx.count(f"query: {op['op']}")
            if how[0] == "getters":
                check_getters(value, want, how[1])
            else:
                c07.check_value(value, want, how, op, ctx)
    c07.intact(pool, "after simultaneous queries")


# --- factorised factors ------------------------------------------------------------------------------------------------

def run_factorised(scn, ctx):
    from veroku.factors.experimental.factorised_factor import FactorizedFactor
    gs = [models.real_factor(f, {"family": "gauss"}) for f in scn["init"]]
    reals = list(gs)
    for r in scn["makes"]:
        out = FactorizedFactor([gs[(r[0] + k * (1 + r[1] % 3)) % len(gs)] for k in range(1 + r[2] % 4)])
        if len(out.var_names) <= 7:
            reals.append(out)
    pool = [{"real": f, "ref": c18.read(f)} for f in reals]
    plans = []
    for ops in scn["threads"]:
        mine = []
        for op in ops:
            try:
                p = c18.plan(op, pool)
                if p[2] in ("factor", "quotient"):
                    c18.need(p[1].scale() < 1e4)
            except c07.NotApplicable:
                continue
            mine.append((op, p))
        plans.append(mine)
    if sum(1 for m in plans if m) < 2:
        raise Skip("fewer than two threads with a possible query")
    ctx.log("factorised", [[op["op"] for op, _ in m] for m in plans])
    jobs = [lambda m=m: [call() for _, (call, _, _) in m] for m in plans]
    results = concurrently(jobs, scn, ctx)
    for mine, got in zip(plans, results):
        for (op, (_, want, how)), value in zip(mine, got or []):
            ctx.count(f"query: factorised {op['op']}")
            c18.check_value(value, want, how, op)
    c18.intact(pool, "after simultaneous queries")


# --- non-linear Gaussians ----------------------------------------------------------------------------------------------

def make_nlg(s):
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussian
    M = np.array(s["M"])
    idx = {v: i for i, v in enumerate(s["x"])}

    def transform(x, v):
        return M[:, [idx[n] for n in v]] @ x
    f = NonLinearGaussian(list(s["x"]), list(s["y"]), transform, np.diag(s["Q"]))
    f = f.multiply(models.real_factor(dict(s["prior"], scope=list(s["x"])), {"family": "gauss"}))
    if s["update"]:
        f = f.multiply(models.real_factor(dict(s["update"], scope=list(s["y"])), {"family": "gauss"}))
    if s["observe"] is not None and len(s["y"]) > 1:
        f = f.reduce([s["y"][0]], [s["observe"]])
    return f


def nlg_query(f, q, s, other):
    name, r = q
    if name == "joint":
        return f.joint_distribution
    if name in ("prec", "h", "g", "cov", "mean"):
        return np.array(getattr(f, "get_" + name)())
    if name == "logw":
        return np.array(f.get_log_weight())
    if name == "marg-x":
        return f.marginalize([s["x"][r % len(s["x"])]], keep=True)
    if name == "marg-y":
        return f.marginalize([s["y"][-1]], keep=True)
    if name == "equals":
        return f.equals(other)
    if name == "normalize":
        return f.normalize()
    if name == "multiply":
        return f.multiply(models.real_factor({"scope": [s["y"][-1]], "K": [[1.5]], "h": [0.3], "g": 0.0, "form": "can"},
                                             {"family": "gauss"})).joint_distribution
    if name == "copy":
        return f.copy().joint_distribution
    raise HarnessError(name)


def run_nlg(scn, ctx):
    s = scn["nlg"]
    solo = [[nlg_query(f, q, s, o) for q in qs]
            for qs, f, o in ((qs, make_nlg(s), make_nlg(s).joint_distribution) for qs in scn["threads"])]
    shared, other = make_nlg(s), make_nlg(s).joint_distribution
    ctx.log("nlg", scn["threads"])
    jobs = [lambda qs=qs: [nlg_query(shared, q, s, other) for q in qs] for qs in scn["threads"]]
    compare(concurrently(jobs, scn, ctx), solo, scn["threads"], ctx)


def compare(results, solo, queries, ctx):
    for t, (got, want, qs) in enumerate(zip(results, solo, queries)):
        for g, w, q in zip(got or [], want, qs):
            ctx.count(f"query: {q[0]}")
            d = same(g, w)
            if d:
                raise Violation("reader-got-wrong-value", f"thread {t}, {q[0]}: {d}")


def same(g, w):
    if type(g) is not type(w):
        return f"{type(g).__name__} instead of {type(w).__name__}"
    if isinstance(w, (bool, np.bool_)):
        return None if g == w else f"{g} instead of {w}"
    if isinstance(w, list):
        return next((d for d in map(same, g, w) if d), None) if len(g) == len(w) else "another number of results"
    if isinstance(w, np.ndarray):
        if g.shape != w.shape or g.dtype == object or not np.allclose(g, w, rtol=1e-8, atol=1e-8):
            return f"{g} instead of {w}"
        return None
    a, b = mix.read(g), mix.read(w)
    return mix.diff(a, b, 1e-7 * (1 + b.scale()))


# --- graphs ------------------------------------------------------------------------------------------------------------

def graph_query(cg, q, spec):
    free = [[v for v in f["scope"] if v not in spec["evidence"] and v not in spec["special"]] for f in spec["factors"]]
    free = [f for f in free if f]
    kind, a, b = q
    if kind in ("deepcopy", "pickle"):
        cg = copy.deepcopy(cg) if kind == "deepcopy" else pickle.loads(pickle.dumps(cg))
        kind = "marginal"
    if kind == "marginal" and free:
        vrs = free[a % len(free)]
        vrs = vrs[b % len(vrs):] + vrs[:b % len(vrs)]
        return cg.get_marginal(vrs[: 1 + b // 5 % len(vrs)])
    if spec.get("affine"):
        return [cg.get_marginal(f) for f in free]
    return cg.get_posterior_joint()


def run_graph(scn, ctx):
    spec = scn["spec"]
    if not models.Truth(spec).possible():
        raise Skip("impossible model")

    def fresh():
        cg = models.build_graph(spec)
        if scn["rounds"]:
            cg.process_graph(tol=1e-9, max_iter=scn["rounds"])
        return cg
    solo = []
    for qs in scn["threads"]:
        cg = fresh()
        solo.append([graph_query(cg, q, spec) for q in qs])
    shared = fresh()
    ctx.log(spec["family"], scn["threads"])
    jobs = [lambda qs=qs: [graph_query(shared, q, spec) for q in qs] for qs in scn["threads"]]
    compare(concurrently(jobs, scn, ctx), solo, scn["threads"], ctx)
    # and afterwards, alone, the same again
    compare([[graph_query(shared, q, spec) for q in qs] for qs in scn["threads"]], solo, scn["threads"], ctx)


def shrink(scn):
    from .. import net as nets
    for s in nets.shrink_list(scn["schedule"]):
        yield dict(scn, schedule=s)
    if scn.get("kills"):
        yield {k: v for k, v in scn.items() if k != "kills"}
    for k, ops in enumerate(scn["threads"]):
        if scn.get("kills"):
            break
        if len(scn["threads"]) > 2:
            yield dict(scn, threads=scn["threads"][:k] + scn["threads"][k + 1:],
                       schedule=[[t - (t > k), q] for t, q in scn["schedule"] if t != k])
        for j in range(len(ops)):
            if len(ops) > 1:
                yield dict(scn, threads=scn["threads"][:k] + [ops[:j] + ops[j + 1:]] + scn["threads"][k + 1:])
    for k, (t, q) in enumerate(scn["schedule"]):
        if q > 1:
            yield dict(scn, schedule=scn["schedule"][:k] + [[t, q // 2]] + scn["schedule"][k + 1:])
    if scn["kind"] == "graph":
        for spec in models.shrink_spec(scn["spec"]):
            if spec["factors"]:
                yield dict(scn, spec=spec)
    if "rare" in scn:
        yield {k: v for k, v in scn.items() if k != "rare"}
    if scn["kind"] == "factorised":
        for k in range(len(scn["makes"])):
            if len(scn["makes"]) > 1:
                yield dict(scn, makes=scn["makes"][:k] + scn["makes"][k + 1:])
    if scn["kind"] == "factors" and len(scn["base"]["init"]) > 1:
        for k in range(len(scn["base"]["init"])):
            b = scn["base"]
            yield dict(scn, base=dict(b, init=b["init"][:k] + b["init"][k + 1:]))
