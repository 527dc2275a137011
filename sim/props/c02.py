"""C02: the joint distribution is conserved by message passing (trees and loopy graphs, any schedule)."""
import numpy as np

from .. import models, refs, seams, net as nets
from ..core import Violation, Skip

ID = "C02"
PLAN = {"quick": 8000, "thorough": 300000}
RULE = ("one evaluation = one simulated run: random (tree or loopy) model, random delivery schedule with duplicates, "
        "delayed, outdated and idempotence-probing deliveries and partial process_graph calls; after every (sampled) "
        "delivery the reported joint is compared with the product of the evidence-reduced factors. Distinct = distinct "
        "digest of structure, schedule and joint values; non-trivial = at least one joint was checked after a delivery.")
ASSUMPTIONS = ["brute-force reference in sim/refs.py is right", "a run with Gaussians is ended (not judged) once potentials "
               "have grown beyond 1e4, where double precision no longer carries the answer",
               "special evidence is not observed in the reported joint (as implemented for multi-cluster graphs); with "
               "zero probabilities the joint is compared where it agrees with the special evidence"]
COMPONENTS = {"real": ["ClusterGraph", "Cluster", "_GraphMessagePath", "Categorical", "SparseCategorical", "Gaussian"],
              "stub": ["iteration order of sets", "message scheduler"]}


def gen(rng, tier):
    fam = rng.choice(["cat", "cat", "cat", "sparse", "gauss", "gauss"])
    loopy = rng.random() < 0.6
    n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5]) if fam != "sparse" else rng.choice([1, 2, 3, 3, 4])
    zero = rng.choice([0, 0, 0.15, 0.4, 0.6]) if fam != "gauss" else 0
    spec = models.model(rng, "loopy" if loopy else "tree", fam, n, zero_rate=zero, spread=rng.choice([0.5, 1.5, 3.0]),
                        joint_limit=2500 if fam != "sparse" else 250, max_scope=3, max_card=4 if fam == "cat" else 3,
                        n_vars=rng.randrange(2, 7), spikes=True, big=0.04)
    kinds = ["pass"] * 4 + rng.choice([[], ["burst"], ["hold", "late"], ["hold", "hold", "late", "burst", "recompute"],
                                       ["process"], ["process", "burst", "hold", "late"]]) + ["idem"] * rng.choice([0, 1])
    ops = nets.gen_ops(rng, rng.choice([1, 2, 4, 8, 16]), kinds)
    if fam != "gauss" and rng.random() < 0.15:
        if rng.random() < 0.7:
            # many loops: whatever is passed around them could accumulate
            fam = rng.choice(["cat", "cat", "cat", "sparse"])
            spec = models.model(rng, "loopy", fam, rng.choice([5, 6, 7, 8]) if fam == "cat" else 5, joint_limit=300,
                                spread=rng.choice([0.5, 1.5]), max_scope=3, max_card=2, n_vars=rng.randrange(4, 7))
        ops.insert(rng.randrange(len(ops) + 1), rng.choice([["process", rng.choice([10, 40]), 1e-13],
                                                         ["rounds", rng.choice([5, 12, 25])]]))
    return {"spec": spec, "ops": ops,
            "every": rng.choice([1, 1, 2, 4]), "ask": rng.random() < 0.5,
            "set_order": rng.randrange(10 ** 6)}


def blown_up(cg, limit):
    return any(pot_scale(c.factor) > limit for c in cg._clusters)


def pot_scale(f):
    return refs.read(f).scale()


def check_joint(cg, want, ctx, tol, where, given=None):
    got = refs.read(cg.get_posterior_joint())
    if given and sorted(got.vrs) == sorted(want.vrs):
        got, want = got.reduce(given), want.reduce(given)
    ctx.count("joints compared")
    # rounding may grow with the potentials, but these may not grow without bounds
    scale = 1 + want.scale() + min(sum(pot_scale(c.factor) for c in cg._clusters), 2000)
    d = refs.diff(got, want, tol * scale)
    if d:
        raise Violation("joint-changed", f"{where}: {d}")
    ctx.log(where, refs.fmt(got.logp if isinstance(got, refs.Table) else got.h))


def execute(scn, ctx):
    with seams.set_order(scn.get("set_order", 0)):
        run(scn, ctx)


def run(scn, ctx):
    spec = scn["spec"]
    truth = models.Truth(spec)
    if not truth.possible():
        raise Skip("impossible model")
    cg = models.build_graph(spec)
    net = nets.Net(cg)
    want = truth.joint()
    gauss = spec["family"] == "gauss"
    tol = 1e-7 if gauss else 1e-10
    single_special = net.n_clusters == 1 and spec["special"]
    ctx.count(f"runs: {spec['family']} {spec['structure']}")
    ctx.log(sorted(net.ends), scn["ops"])
    check_joint(cg, want, ctx, tol, "before any message")
    # messages carry special evidence: a table with zeros then keeps its values only where it agrees with the evidence
    given = spec["special"] if spec["special"] and any(None in f.get("logp", []) for f in spec["factors"]) else None
    ctx.nontrivial = False
    if single_special:
        cg.process_graph()   # documented: observes the evidence in the only cluster
        want = want.reduce({v: x for v, x in spec["special"].items()})
        check_joint(cg, want, ctx, tol, "single cluster with special evidence")
        ctx.nontrivial = True
        return
    for t, op in enumerate(scn["ops"]):
        try:
            if op[0] == "idem":
                idempotent(cg, net, op, ctx, tol)
            elif op[0] == "rounds":
                for k in range(op[1] * len(net)):
                    net.deliver((k * 7 + k // len(net)) % len(net))
                    ctx.step()
                ctx.count("long runs of deliveries")
            else:
                nets.apply_op(net, op, ctx)
        except np.linalg.LinAlgError:
            if gauss:
                raise Skip("Gaussian message is not proper in this (loopy) state") from None
            raise
        if gauss and not proper(cg):
            raise Skip("Gaussian potential is not proper in this (loopy) state")
        if gauss and blown_up(cg, 1e4):
            ctx.count("runs ended early: potentials too large")
            return
        if t % scn["every"] == 0 or t == len(scn["ops"]) - 1:
            check_joint(cg, want, ctx, tol, f"after schedule entry {t} {op}", given)
            ctx.nontrivial = True
            if scn["ask"]:
                free = [v for v in cg._clusters[t % net.n_clusters].var_names if v not in spec["special"]]
                if free:
                    cg.get_marginal(free[:1])


def proper(cg):
    """Whether all potentials are positive definite with some margin (loopy Gaussian propagation may diverge)."""
    for c in cg._clusters:
        g = refs.read(c.factor)
        w = np.linalg.eigvalsh(g.K)
        if not w.min() > 1e-2:
            return False
    return True


def idempotent(cg, net, op, ctx, tol):
    """Delivering the message that the receiver already contains changes nothing at all."""
    if not len(net):
        return
    i = op[1] % len(net)
    net.deliver(i)
    path = net.paths[i]
    before = refs.read(path.receiver_cluster.factor)
    path.next_message = path.previously_sent_message.copy()
    path.pass_next_message()
    path.recompute_next_message()
    after = refs.read(path.receiver_cluster.factor)
    ctx.count("fault: same message delivered again")
    d = refs.diff(after, before, tol * (1 + before.scale()))
    if d:
        raise Violation("redelivery-changes-receiver", f"path {net.ends[i]}: {d}")


def shrink(scn):
    for ops in nets.shrink_list(scn["ops"]):
        yield dict(scn, ops=ops)
    for spec in models.shrink_spec(scn["spec"]):
        if spec["factors"]:
            yield dict(scn, spec=spec)
    if scn["ask"]:
        yield dict(scn, ask=False)
