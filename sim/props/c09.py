"""C09: processing in steps, with queries and caller mutations in between, is the same as one call."""
import numpy as np

from .. import models, refs, nlg, net as nets
from ..core import Violation, Skip, HarnessError
from . import c01, c02

ID = "C09"
PLAN = {"quick": 2500, "thorough": 250000}
RULE = ("one evaluation = one simulated run: a history of process_graph pieces, queries, repeated queries and in-place "
        "changes by the caller of factors it supplied or was given, on a random tree or loopy model; a twin graph is "
        "processed in one call without any of that and all answers are compared (trees: also with brute force). Distinct "
        "= distinct digest of history and answers; non-trivial = at least two pieces or one query between pieces.")
ASSUMPTIONS = ["brute-force reference in sim/refs.py is right"]
COMPONENTS = {"real": ["ClusterGraph", "Cluster", "_GraphMessagePath", "factors"], "stub": []}


def gen(rng, tier):
    fam = rng.choice(["cat", "cat", "cat", "gauss", "gauss", "sparse"])
    loopy = rng.random() < 0.5
    n = rng.choice([1, 2, 3, 3, 4, 5, 6]) if fam != "sparse" else rng.choice([1, 2, 3])
    spec = models.model(rng, "loopy" if loopy else "tree", fam, n, zero_rate=rng.choice([0, 0, 0.2]) if fam != "gauss" else 0,
                        spread=rng.choice([0.5, 1.5]), joint_limit=1000 if fam != "sparse" else 100, max_scope=3, max_card=3,
                        n_vars=rng.randrange(2, 6), disconnected=0.05, exotic=rng.random() < 0.2, big=0.04)
    if rng.random() < 0.12:
        spec = nlg.model(rng)
    ops = []
    for _ in range(rng.choice([2, 4, 6, 10])):
        r = rng.random()
        if r < 0.35:
            ops.append(["process", rng.choice([1, 1, 2, 3, 30]), rng.choice([1e-13, 1e-13, 1e-6, 1e-3, 1e-3, 0.1, 1.0, 1e9])])
        elif r < 0.65:
            ops.append(["marginal", rng.randrange(1000), rng.randrange(1000)])
        elif r < 0.75:
            ops.append(["joint"])
        elif r < 0.78:
            ops.append(["scribble-args"])
        elif r < 0.9:
            ops.append(["scribble-result", rng.randrange(1000)])
        else:
            ops.append(["scribble-input", rng.randrange(1000)])
    return {"spec": spec, "ops": ops, "subsets": []}


def scribble(f):
    """A caller changing a factor it owns, in place."""
    name = type(f).__name__
    if name == "Categorical":
        if np.ndim(f.log_probs_tensor):
            f.log_probs_tensor[...] = 0.123
    elif name == "SparseCategorical":
        for k in list(f.log_probs_table):
            f.log_probs_table[k] = 0.123
        f.log_probs_table.clear()
    elif name == "Gaussian":
        for attr in ("prec", "h_vec", "cov", "mean"):
            a = getattr(f, attr)
            if a is not None:
                a[...] = 0.123
        f.g_val = f.log_weight = 0.123
    elif name == "NonLinearGaussian":
        f.add_log_weight(3.21)
    else:
        raise HarnessError(name)


def same(a, b):
    return a.vrs == b.vrs and refs.diff(a, b, 1e-12 * (1 + b.scale())) is None


def free_queries(spec):
    out = [[v for v in f["scope"] if v not in spec["evidence"] and v not in spec["special"]] for f in spec["factors"]]
    return [s for s in out if s]


def execute(scn, ctx):
    spec = scn["spec"]
    truth = models.Truth(spec)
    if not truth.possible():
        raise Skip("impossible model")
    gauss = spec["family"] == "gauss"
    factors = models.build_factors(spec)
    orig = [refs.read(f) for f in factors]
    scribbled = set()
    args = models.graph_args(spec)
    from veroku.cluster_graph import ClusterGraph
    given = list(factors)
    cg = ClusterGraph(given, **args)
    queries = free_queries(spec)
    kept = []
    pieces = 0
    ctx.log(scn["ops"])
    ctx.nontrivial = len(scn["ops"]) > 1
    try:
        for op in scn["ops"]:
            ctx.step()
            ctx.count(f"op: {op[0]}")
            if op[0] == "process":
                cg.process_graph(tol=op[2], max_iter=op[1])
                pieces += op[1]
            elif op[0] in ("marginal", "joint"):
                if op[0] == "joint" and spec.get("affine"):
                    continue
                if op[0] == "marginal":
                    if not queries:
                        continue
                    q = queries[op[1] % len(queries)]
                    q = q[op[2] % len(q):] + q[:op[2] % len(q)]
                    q = q[: 1 + (op[2] // 7) % len(q)]
                    ask = lambda: cg.get_marginal(q)
                    q0 = list(q)
                else:
                    ask, q, q0 = cg.get_posterior_joint, None, None
                first = ask()
                a = refs.read(first)
                b = refs.read(ask())
                if not same(b, a):
                    raise Violation("query-not-repeatable", f"{op}: {refs.diff(b, a, 1e-12)}")
                if q != q0:
                    raise Violation("query-argument-changed", f"{q0} became {q}")
                kept.append([first, a])
                ctx.log(op, refs.fmt(a.logp if isinstance(a, refs.Table) else a.h))
            elif op[0] == "scribble-result":
                if kept:
                    scribble(kept.pop(op[1] % len(kept))[0])
                    ctx.count("fault: caller changed a returned factor in place")
            elif op[0] == "scribble-args":
                if args is not None:
                    for d in (args.get("evidence"), args.get("special_evidence")):
                        for k, v in list((d or {}).items()):
                            d[k] = 0 if spec["family"] != "gauss" else v + 1.5
                        if d is not None and len(scn["ops"]) % 2:
                            d.clear()
                    given.clear()
                    args = None
                    ctx.count("fault: caller changed the evidence and the list of factors in place")
            elif op[0] == "scribble-input":
                i = op[1] % len(factors)
                if i not in scribbled:
                    scribbled.update(j for j, f in enumerate(factors) if f is factors[i])
                    scribble(factors[i])
                    ctx.count("fault: caller changed a supplied factor in place")
            else:
                raise HarnessError(op[0])
            intact(kept, factors, orig, scribbled, args, spec, op)
        cg.process_graph(tol=1e-13, max_iter=30)
        intact(kept, factors, orig, scribbled, args, spec, "final processing")
        twin = models.build_graph(spec)
        twin.process_graph(tol=1e-13, max_iter=30 + pieces)
    except np.linalg.LinAlgError:
        if gauss and spec["structure"] != "tree":
            raise Skip("improper Gaussian message in a loopy graph") from None
        raise
    net = nets.Net(cg)
    if net.acyclic():
        c01.check_all(cg, truth, spec, scn, ctx, 1e-3 if not gauss else 2e-2, True, "after split processing")
    last = twin.sync_message_passing_max_distances[-1:]
    if not net.acyclic() and last and not last[0] <= 1e-6:
        ctx.count("loopy runs that did not converge (not compared)")
        return
    if not spec.get("affine") and not (gauss and not net.acyclic()):
        special = {v: x for v, x in spec["special"].items()}
        got, want = refs.read(cg.get_posterior_joint()), truth.joint().reduce(special)
        twins = sorted(twin.get_posterior_joint().var_names)
        if sorted(got.vrs) != twins:
            raise Violation("joint-differs", f"after split processing: over {got.vrs}, not {twins}")
        got = got.reduce({v: x for v, x in special.items() if v in got.vrs})
        scale = 1 + want.scale() + min(sum(c02.pot_scale(c.factor) for c in cg._clusters), 2000)
        ctx.count("joints compared with the model")
        d = refs.diff(got, want, (1e-7 if gauss else 1e-9) * scale)
        if d:
            raise Violation("joint-differs", f"after split processing: {d}")
    for q in queries:
        got, want = refs.read(cg.get_marginal(list(q))), refs.read(twin.get_marginal(list(q)))
        if gauss and (not pd(got) or not pd(want)):
            raise Skip("improper Gaussian belief in a loopy graph")
        ctx.count("answers compared with the twin")
        d = c01.approx_diff(got, want, 1e-3 if not gauss else 2e-2)
        if d:
            raise Violation("split-differs", f"marginal over {q}: {d}")


def pd(g):
    return isinstance(g, refs.Gauss) and np.linalg.eigvalsh(g.K).min() > 1e-9


def intact(kept, factors, orig, scribbled, args, spec, op):
    for f, a in kept:
        now = refs.read(f)
        if not same(now, a):
            raise Violation("returned-factor-changed", f"by {op}: {now.vrs} {refs.diff(now, a, 1e-12)}")
    for i, (f, a) in enumerate(zip(factors, orig)):
        if i not in scribbled:
            now = refs.read(f)
            if now.vrs != a.vrs or refs.diff(now, a, 1e-9 * (1 + a.scale())):
                raise Violation("supplied-factor-changed", f"factor {i} by {op}: {now.vrs} {refs.diff(now, a, 1e-9)}")
    if args is not None and (args.get("evidence", {}) != spec["evidence"] or args.get("special_evidence", {}) != spec["special"]):
        raise Violation("evidence-changed", f"by {op}: {args}")


def shrink(scn):
    for ops in nets.shrink_list(scn["ops"]):
        yield dict(scn, ops=ops)
    for spec in models.shrink_spec(scn["spec"]):
        if spec["factors"]:
            yield dict(scn, spec=spec)
