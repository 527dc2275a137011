"""C06: several threads build, process and query their own graphs, from shared or separate factors and evidence."""
import copy
import pickle

import numpy as np

from .. import models, refs, seams, threads, nlg, net as nets
from ..core import Violation, Skip, HarnessError
from . import c01, c08

ID = "C06"
PLAN = {"quick": 4000, "thorough": 250000}
RULE = ("one evaluation = one simulated run: 2-4 threads, each with its own program of building, processing (in pieces), "
        "copying, pickling and querying graphs, over factor and evidence objects that may be the same for several threads, "
        "executed one at a time under a seeded schedule that preempts them inside the library; some threads are stopped by an "
        "exception at a seeded instant. All results (and message counts and convergence histories) are compared with those of "
        "the same program run alone, trees also with brute force, and the shared factors with their values before. Distinct = "
        "distinct digest of programs and preemption points; non-trivial = a thread was preempted inside a library call.")
ASSUMPTIONS = c08.ASSUMPTIONS + ["brute-force reference in sim/refs.py is right"]
COMPONENTS = {"real": ["ClusterGraph", "Cluster", "_GraphMessagePath", "factors", "Python threads"],
              "stub": ["thread scheduling decisions (seeded)", "iteration order of sets"]}


def gen(rng, tier):
    n_threads = rng.choice([2, 2, 2, 3, 4])
    fam = rng.choice(["cat", "cat", "gauss", "gauss", "sparse"])
    specs = []
    for _ in range(rng.choice([1, 1, 2])):
        specs.append(models.model(rng, rng.choice(["tree", "tree", "loopy"]) if fam != "gauss" else "tree", fam,
                                  rng.choice([1, 2, 2, 3, 4]) if fam != "sparse" else rng.choice([1, 2, 3]),
                                  zero_rate=0 if fam == "gauss" else rng.choice([0, 0, 0.2]),
                                  joint_limit=300 if fam != "sparse" else 60, max_scope=3, max_card=3, n_vars=4, exotic=False))
        if rng.random() < 0.1:
            specs[-1] = nlg.model(rng)
    progs = []
    for t in range(n_threads):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            ops.append([rng.choice(["process", "process", "marginal", "marginal", "joint", "pickle", "deepcopy", "rebuild"]),
                        rng.randrange(1000), rng.randrange(1000)])
        progs.append({"spec": rng.randrange(len(specs)), "shared": rng.random() < 0.75, "shuffle": rng.randrange(1000)
                      if rng.random() < 0.3 else None, "plain": rng.random() < 0.3, "ops": ops})
    scn = {"specs": specs, "threads": progs, "set_order": rng.randrange(10 ** 6),
           "schedule": threads.gen_schedule(rng, n_threads)}
    if rng.random() < 0.5:
        scn["rare"] = rng.choice([2, 5, 20])
    if rng.random() < 0.2:
        scn["kills"] = {str(rng.randrange(n_threads)): int(4000 ** rng.random())}
    return scn


def program(p, spec, factors, args):
    """The work of one thread; returns a list of results."""
    from veroku.cluster_graph import ClusterGraph
    if p["shuffle"] is not None:
        order = sorted(range(len(factors)), key=lambda i: (p["shuffle"] * (i + 7)) % 101)
        factors = [factors[i] for i in order]
    if p["plain"]:
        args = {"disable_tqdm": True}
        spec = dict(spec, evidence={}, special={})
    out = []
    cg = ClusterGraph(factors, **args)
    if spec.get("affine"):
        cg.process_graph(tol=1e-9, max_iter=25)
    for op, a, b in p["ops"]:
        if op == "process":
            cg.process_graph(tol=[1e-12, 1e-3][a % 2], max_iter=1 + b % 3)
        elif op == "pickle":
            cg = pickle.loads(pickle.dumps(cg))
        elif op == "deepcopy":
            cg = copy.deepcopy(cg)
        elif op == "rebuild":
            cg = ClusterGraph(factors, **args)
            if spec.get("affine"):
                cg.process_graph(tol=1e-9, max_iter=25)
        elif op in ("marginal", "joint"):
            out.append(c08.graph_query(cg, [op, a, b], spec))
        else:
            raise HarnessError(op)
    cg.process_graph(tol=1e-13, max_iter=25)
    if not spec.get("affine"):
        out.append(cg.get_posterior_joint())
    for q in free(spec):
        out.append(cg.get_marginal(q))
    out.append(np.array([cg.num_messages_passed, len(cg.sync_message_passing_max_distances)]))
    out.append(nets.Net(cg).acyclic())
    return out


def free(spec):
    out = [[v for v in f["scope"] if v not in spec["evidence"] and v not in spec["special"]] for f in spec["factors"]]
    return [f for f in out if f]


def execute(scn, ctx):
    with seams.set_order(scn["set_order"]):
        run(scn, ctx)


def run(scn, ctx):
    specs = scn["specs"]
    for s in specs:
        if not models.Truth(s).possible() or not models.Truth(dict(s, evidence={}, special={})).possible():
            raise Skip("impossible model")

    def inputs():
        return [(models.build_factors(s), models.graph_args(s)) for s in specs]

    shared = inputs()
    orig = [[refs.read(f) for f in fs] for fs, _ in inputs()]
    jobs, solo = [], []
    for p in scn["threads"]:
        spec = specs[p["spec"]]
        own = inputs()[p["spec"]]
        solo.append(program(p, spec, *own))
        mine = shared[p["spec"]] if p["shared"] else inputs()[p["spec"]]
        ctx.count("threads with shared factors" if p["shared"] else "threads with separate factors")
        jobs.append(lambda p=p, spec=spec, mine=mine: program(p, spec, *mine))
    ctx.log([p["ops"] for p in scn["threads"]])
    results = c08.concurrently(jobs, scn, ctx)
    for t, (got, want, p) in enumerate(zip(results, solo, scn["threads"])):
        spec = specs[p["spec"]]
        if got is None:
            continue
        if len(got) != len(want):
            raise Violation("other-number-of-results", f"thread {t}")
        for k, (g, w) in enumerate(zip(got, want)):
            ctx.count("results compared with those of the thread alone")
            if isinstance(w, np.ndarray) and spec["family"] == "gauss":
                continue   # rounding differs with the form in which a shared Gaussian is available
            d = c08.same(g, w)
            if d:
                raise Violation("thread-got-other-result", f"thread {t}, result {k}: {d}")
        if want[-1] and not p["plain"]:
            truth = models.Truth(spec)
            qs = free(spec)
            for q, g in zip(qs, got[-2 - len(qs):-2]):
                d = c01.approx_diff(refs.read(g), truth.marginal(q), 1e-3 if spec["family"] != "gauss" else 2e-2)
                if d:
                    raise Violation("marginal-differs", f"thread {t}, marginal over {q}: {d}")
    for s, (fs, args), before in zip(specs, shared, orig):
        for i, (f, a) in enumerate(zip(fs, before)):
            now = refs.read(f)
            if now.vrs != a.vrs or refs.diff(now, a, 1e-9 * (1 + a.scale())):
                raise Violation("supplied-factor-changed", f"factor {i}: {now.vrs} {refs.diff(now, a, 1e-9)}")
        if args.get("evidence", {}) != s["evidence"] or args.get("special_evidence", {}) != s["special"]:
            raise Violation("evidence-changed", f"{args}")


def shrink(scn):
    for s in nets.shrink_list(scn["schedule"]):
        yield dict(scn, schedule=s)
    if scn.get("kills"):
        yield {k: v for k, v in scn.items() if k != "kills"}
    else:
        for k in range(len(scn["threads"])):
            if len(scn["threads"]) > 2:
                yield dict(scn, threads=scn["threads"][:k] + scn["threads"][k + 1:],
                           schedule=[[t - (t > k), q] for t, q in scn["schedule"] if t != k])
    for k, p in enumerate(scn["threads"]):
        for ops in nets.shrink_list(p["ops"]):
            yield dict(scn, threads=scn["threads"][:k] + [dict(p, ops=ops)] + scn["threads"][k + 1:])
        if p["shuffle"] is not None:
            yield dict(scn, threads=scn["threads"][:k] + [dict(p, shuffle=None)] + scn["threads"][k + 1:])
    for k, (t, q) in enumerate(scn["schedule"]):
        if q > 1:
            yield dict(scn, schedule=scn["schedule"][:k] + [[t, q // 2]] + scn["schedule"][k + 1:])
    for k, s in enumerate(scn["specs"]):
        for spec in models.shrink_spec(s):
            if spec["factors"]:
                yield dict(scn, specs=scn["specs"][:k] + [spec] + scn["specs"][k + 1:])
