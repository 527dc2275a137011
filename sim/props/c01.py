"""C01: exact inference on acyclic models under every message schedule."""
import json

from .. import models, refs, seams, net as nets
from ..core import Violation, Skip

ID = "C01"
PLAN = {"quick": 4000, "thorough": 400000}
RULE = ("one evaluation = one simulated run: a random acyclic model (dense, sparse or Gaussian, with evidence), a random "
        "schedule of deliveries with duplicates, delayed and outdated messages, starvation and partial process_graph "
        "calls, then fair rounds and/or process_graph, then all marginals against brute force. Distinct = distinct "
        "digest of (structure, schedule, delivered results); non-trivial = the graph has a message path and at least "
        "one message was delivered.")
ASSUMPTIONS = ["brute-force reference in sim/refs.py is right", "evidence has non-zero probability",
               "evidence never covers a complete Gaussian factor", "variable names free of quotes, backslashes and ':'"]
COMPONENTS = {"real": ["ClusterGraph", "Cluster", "_GraphMessagePath", "Categorical", "SparseCategorical", "Gaussian"],
              "stub": ["iteration order of sets", "message scheduler (replaces process_graph's own choice of the next path in the scheduled phase)"]}


def gen(rng, tier):
    fam = rng.choice(["cat", "cat", "cat", "sparse", "gauss", "gauss"])
    big = 9 if tier == "thorough" else 7
    n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, big]) if fam != "sparse" else rng.choice([1, 2, 3, 4, 5])
    spec = models.model(rng, "tree", fam, n, zero_rate=rng.choice([0, 0, 0.15, 0.4]) if fam != "gauss" else 0,
                        spread=rng.choice([0.5, 1.5, 4.0]), joint_limit=30000 if fam != "sparse" else 3000,
                        max_scope=4 if fam != "sparse" else 3, big=0.04, local=True)
    scn = {"spec": spec, "mode": rng.choice(["fair", "fair", "both", "process"])}
    kinds = ["pass"] * 4 + rng.choice([[], ["burst"], ["hold", "late"], ["hold", "hold", "late", "burst", "recompute"],
                                       ["process"], ["process", "burst", "hold", "late"]])
    scn["ops"] = nets.gen_ops(rng, rng.choice([0, 3, 8, 15, 30]), kinds) if scn["mode"] != "process" or rng.random() < .3 else []
    scn["set_order"] = rng.randrange(10 ** 6)
    scn["perms"] = [rng.randrange(1000) for _ in range(31)]
    allv = sorted({v for f in spec["factors"] for v in f["scope"]})
    scn["subsets"] = [rng.sample(range(len(allv)), min(len(allv), rng.randrange(1, 4))) for _ in range(6)]
    return scn


def check_all(cg, truth, spec, scn, ctx, tol, approx, where):
    """Every cluster's potential (through queries on its scope) and every variable against brute force."""
    special = spec["special"]
    asked = set()
    queries = []
    for f in spec["factors"]:
        queries.append([v for v in f["scope"] if v in truth.comp_of_var])
    queries += [[v] for v in truth.unobserved]
    allv = sorted({v for f in spec["factors"] for v in f["scope"]})
    for sub in scn["subsets"]:
        vrs = [allv[i % len(allv)] for i in sub]
        if all(v in truth.comp_of_var for v in vrs) and any(set(vrs) <= set(f["scope"]) for f in spec["factors"]):
            queries.append(vrs)
    for vrs in queries:
        if not vrs or tuple(vrs) in asked:
            continue
        asked.add(tuple(vrs))
        got = refs.read(cg.get_marginal(list(vrs)))
        judge(got, truth.marginal(vrs), vrs, truth, ctx, tol, approx, where)
    for c in cg._clusters:
        free = [v for v in c.var_names if v in truth.comp_of_var]
        if not free:
            continue
        pot = c.factor
        if spec.get("affine"):    # what is known about the other conditioning variables only matters once these are known
            seen = [v for v in c.var_names if v in special]
            pot = pot.reduce(vrs=seen, values=[special[v] for v in seen]) if seen else pot
        pot = refs.read(pot)
        pot = pot.reduce({v: special[v] for v in pot.vrs if v in special})
        judge(pot.marginalize(free), truth.marginal(free), free, truth, ctx, tol, approx, where + ", cluster potential")


def judge(got, want, vrs, truth, ctx, tol, approx, where):
    ctx.count("marginals compared")
    if sorted(got.vrs) != sorted(vrs):
        raise Violation("wrong-scope", f"asked for {vrs}, got {got.vrs}")
    if approx:
        d = approx_diff(got, want, tol)
    else:
        scale = 1 + max(got.scale(), want.scale())
        d = refs.diff(got, want, tol * scale, weight=not truth.floating)
    if d:
        raise Violation("wrong-marginal", f"{where}: marginal over {vrs}: {d}")
    ctx.log(vrs, refs.fmt(got.logp if isinstance(got, refs.Table) else got.h))


def approx_diff(got, want, tol):
    import numpy as np
    want = want.reorder(got.vrs)
    if isinstance(got, refs.Table):
        a, b = got.logp, want.logp
        if a.shape != b.shape:
            return f"shape {a.shape} expected {b.shape}"
        if np.isnan(a).any():
            return "NaN"
        pa, pb = np.exp(a - refs.lse(a)), np.exp(b - refs.lse(b))
        if not np.abs(pa - pb).max() <= tol:
            return f"probabilities differ by {np.abs(pa - pb).max():.3g}: {refs.fmt(pa)} expected {refs.fmt(pb)}"
        return None
    ca, ma = got.moments()
    cb, mb = want.moments()
    sd = np.sqrt(np.diag(cb))
    err = max(np.abs((ma - mb) / sd).max(), np.abs((ca - cb) / np.outer(sd, sd)).max())
    if not err <= tol:
        return f"standardised moments differ by {err:.3g} (tolerance {tol})"
    return None


def execute(scn, ctx):
    with seams.set_order(scn.get("set_order", 0)):
        run(scn, ctx)


def run(scn, ctx):
    spec = scn["spec"]
    truth = models.Truth(spec)
    if not truth.possible():
        raise Skip("impossible model")
    cg = models.build_graph(spec)
    net = nets.Net(cg)
    if not net.acyclic():
        raise Skip("cluster graph has a cycle")
    ctx.nontrivial = len(net) > 0
    ctx.count(f"runs: {spec['family']}")
    ctx.count(f"runs: mode {scn['mode']}")
    ctx.log(sorted(net.ends), scn["ops"])
    for op in scn["ops"]:
        nets.apply_op(net, op, ctx)
    exact = 1e-9 if spec["family"] != "gauss" else 1e-7
    if scn["mode"] in ("fair", "both") or spec["family"] == "gauss":
        if net.n_clusters == 1:
            cg.process_graph()
        nets.fair_rounds(net, scn["perms"], ctx)
        check_all(cg, truth, spec, scn, ctx, exact, False, "after fair rounds")
    if scn["mode"] in ("process", "both"):
        cg.process_graph(tol=1e-12, max_iter=50)
        ctx.count("process_graph to convergence")
        # after fair rounds nothing may change any more; before, the answer is as accurate as the tolerance
        exact_state = scn["mode"] == "both" or spec["family"] == "gauss"
        check_all(cg, truth, spec, scn, ctx, exact * 10 if exact_state else 1e-3, not exact_state, "after process_graph")


def shrink(scn):
    for ops in nets.shrink_list(scn["ops"]):
        yield dict(scn, ops=ops)
    for mode in ("process", "fair"):
        if scn["mode"] == "both":
            yield dict(scn, mode=mode)
    for spec in models.shrink_spec(scn["spec"]):
        if spec["factors"]:
            yield dict(scn, spec=spec, subsets=[])
    if scn["subsets"]:
        yield dict(scn, subsets=[])
    if scn["perms"]:
        yield dict(scn, perms=[])
