"""C05: interrupts at arbitrary instants of building, processing and querying."""
import numpy as np

from .. import models, refs, seams, monitor, nlg, net as nets
from ..core import Violation, Skip, HarnessError
from . import c01, c02

ID = "C05"
PLAN = {"quick": 1500, "thorough": 150000}
RULE = ("one evaluation = one simulated run: build / process / query operations on a random model; an exception "
        "(KeyboardInterrupt or MemoryError) is raised at one chosen instant (function entry, loop iteration or return from "
        "native code inside veroku) of each interrupted operation; afterwards caller's factors, reported joint and, once "
        "processing is simply called again, all marginals are compared with the uninterrupted reference. Distinct = "
        "distinct digest of (model structure, operations, instants); non-trivial = at least one interrupt was delivered.")
ASSUMPTIONS = ["asynchronous exceptions arrive where CPython 3.12 delivers them: function entry, backward jump, return from "
               "a native call; allocation failures arrive at calls", "brute-force reference in sim/refs.py is right"]
COMPONENTS = {"real": ["ClusterGraph", "Cluster", "_GraphMessagePath", "factors"],
              "stub": ["source of asynchronous exceptions (sys.monitoring callbacks)", "iteration order of sets"]}
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


def gen(rng, tier):
    fam = rng.choice(["cat", "cat", "gauss", "gauss", "sparse"])
    loopy = rng.random() < 0.3
    n = rng.choice([1, 2, 2, 3, 3, 4, 5]) if fam != "sparse" else rng.choice([1, 2, 3])
    spec = models.model(rng, "loopy" if loopy else "tree", fam, n, zero_rate=rng.choice([0, 0, 0.3]) if fam != "gauss" else 0,
                        spread=rng.choice([0.5, 1.5]), joint_limit=1500 if fam != "sparse" else 100, max_scope=3, max_card=3,
                        n_vars=rng.randrange(2, 6), disconnected=0.05, exotic=rng.random() < 0.2, big=0.02)
    if rng.random() < 0.12:
        spec = nlg.model(rng)
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        kind = rng.choice(["build", "process", "process", "process", "process", "marginal", "joint"])
        op = [kind, rng.random(), rng.choice(["all", "graph", "graph"]), rng.choice(sorted(EXC)), rng.randrange(1000)]
        if kind == "process":
            op += [rng.choice([1e-12, 1e-3, 1e-1]), rng.choice([1, 2, 50])]
        ops.append(op)
    return {"spec": spec, "ops": ops, "set_order": rng.randrange(10 ** 6), "perms": [rng.randrange(99) for _ in range(7)],
            "subsets": []}


def execute(scn, ctx):
    with seams.set_order(scn["set_order"]):
        run(scn, ctx)


def do(op, state, spec):
    """Perform one operation; a build replaces the graph."""
    kind = op[0]
    if kind == "build":
        state["cg"] = models.build_graph(spec, state["factors"])
    elif kind == "process":
        state["cg"].process_graph(tol=op[5], max_iter=op[6])
    elif kind == "marginal":
        free = [[v for v in f["scope"] if v not in spec["evidence"] and v not in spec["special"]] for f in spec["factors"]]
        free = [s for s in free if s]
        if free:
            state["cg"].get_marginal(free[op[4] % len(free)])
    elif kind == "joint":
        if not spec.get("affine"):
            state["cg"].get_posterior_joint()
    else:
        raise HarnessError(kind)


def run(scn, ctx):
    spec = scn["spec"]
    truth = models.Truth(spec)
    if not truth.possible():
        raise Skip("impossible model")
    gauss = spec["family"] == "gauss"
    want = truth.joint()
    given = spec["special"] if spec["special"] and (any(None in f.get("logp", []) for f in spec["factors"])) else None
    originals = [refs.read(f) for f in models.build_factors(spec)]
    state = {"factors": models.build_factors(spec)}
    # how many instants every operation has when it is not interrupted
    totals = []
    dry = {"factors": models.build_factors(spec)}
    dry["cg"] = models.build_graph(spec, dry["factors"])
    for op in scn["ops"]:
        meter = monitor.Interrupter(graph_only=op[2] == "graph")
        with monitor.Instants(meter):
            guard_improper(lambda: do(op, dry, spec), gauss, spec)
        totals.append(meter.count)
    cg = models.build_graph(spec, state["factors"])
    state["cg"] = cg
    ctx.nontrivial = False
    single = len(cg._clusters) == 1 and spec["special"] or spec.get("affine")    # then the joint is not looked at
    observed = False
    for op, total in zip(scn["ops"], totals):
        if not total:
            continue
        exc = EXC[op[3]]("injected by the simulator")
        trap = monitor.Interrupter(int(op[1] * total), exc, op[2] == "graph")
        reached = None
        try:
            with monitor.Instants(trap):
                guard_improper(lambda: do(op, state, spec), gauss, spec)
        except (KeyboardInterrupt, MemoryError) as e:
            reached = e
        ctx.step(trap.count)
        if trap.fired:
            ctx.nontrivial = True
            ctx.count(f"fault: {op[3]} in {op[0]}")
            ctx.log(op[0], trap.fired)
            if reached is not exc:
                raise Violation("interrupt-swallowed", f"{op[3]} raised at {trap.fired} during {op[0]} did not reach the caller")
        else:
            ctx.count("interrupt not reached (operation was shorter)")
            if reached is not None:
                raise reached
        where = f"after {op[3]} at {trap.fired} in {op[0]}"
        for f, o in zip(state["factors"], originals):
            got = refs.read(f)
            d = refs.diff(got, o, 1e-9 * (1 + o.scale()))
            if d or got.vrs != o.vrs:
                raise Violation("caller-factor-changed", f"{where}: {d or got.vrs}")
        if single:
            continue
        c02.check_joint(state["cg"], want, ctx, 1e-7 if gauss else 1e-9, where, given)
    # recovery: simply go on
    cg = state["cg"]
    if gauss and spec["structure"] != "tree":
        return
    cg.process_graph(tol=1e-12, max_iter=50)
    ctx.count("recoveries checked")
    net = nets.Net(cg)
    if not single:
        c02.check_joint(cg, want, ctx, 1e-7 if gauss else 1e-9, "after recovery", given)
    if net.acyclic():
        if not gauss:
            c01.check_all(cg, truth, spec, scn, ctx, 1e-3, True, "after recovery")
        else:
            c01.check_all(cg, truth, spec, scn, ctx, 2e-2, True, "after recovery")
        for _ in range(1 + bool(spec.get("affine"))):
            nets.fair_rounds(net, scn["perms"], ctx)
        c01.check_all(cg, truth, spec, scn, ctx, models.accuracy(spec), False, "after recovery and fair rounds")
    elif not gauss:
        # no unfinished delivery is left behind: what is pending is what the clusters would now say
        for i, p in enumerate(net.paths):
            pending = refs.read(p.next_message.factor)
            p.recompute_next_message()
            fresh = refs.read(p.next_message.factor)
            d = refs.diff(fresh, pending, 1e-9 * (1 + pending.scale()))
            if d:
                raise Violation("stale-pending-message", f"path {net.ends[i]} after recovery: {d}")


def guard_improper(fn, gauss, spec):
    try:
        fn()
    except np.linalg.LinAlgError:
        if gauss and spec["structure"] != "tree":
            raise Skip("improper Gaussian message in a loopy graph") from None
        raise


def shrink(scn):
    for ops in nets.shrink_list(scn["ops"]):
        yield dict(scn, ops=ops)
    for spec in models.shrink_spec(scn["spec"]):
        if spec["factors"]:
            yield dict(scn, spec=spec)
    for i, op in enumerate(scn["ops"]):
        for frac in (0.0, 0.5, op[1] / 2):
            if frac < op[1]:
                yield dict(scn, ops=scn["ops"][:i] + [[op[0], frac] + op[2:]] + scn["ops"][i + 1:])
