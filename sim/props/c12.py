"""C12: snapshots (deep copy, pickle, restart in a new interpreter) resume where they were, independently."""
import copy
import math
import pickle

import numpy as np

from .. import models, refs, monitor, remote, nlg, net as nets
from ..core import Violation, Skip, HarnessError
from . import c01, c02

ID = "C12"
PLAN = {"quick": 2400, "thorough": 150000}
RULE = ("one evaluation = one simulated run: deliveries, process_graph pieces, interrupts and snapshots (deepcopy, pickle, or "
        "pickle restored in a new interpreter with another hash seed) in random order; every snapshot must stay frozen "
        "while the other graph goes on, must reach the same state when the same steps are repeated on it (crash and "
        "restart), and must finish with the right answers. Distinct = distinct digest of history and states; non-trivial "
        "= at least one snapshot with later steps.")
ASSUMPTIONS = ["graphs small enough for Python's recursion limit when pickling (about 60 clusters)",
               "a snapshot in a new interpreter is taken with pickle's default protocol"]
COMPONENTS = {"real": ["ClusterGraph", "Cluster", "_GraphMessagePath", "factors", "copy.deepcopy", "pickle", "new interpreters"],
              "stub": ["message scheduler", "source of asynchronous exceptions"]}


def prepare():
    remote.start([1, 2])


def gen(rng, tier):
    fam = rng.choice(["cat", "cat", "gauss", "gauss", "sparse"])
    loopy = rng.random() < 0.35
    n = rng.choice([1, 2, 3, 3, 4, 5, 6]) if fam != "sparse" else rng.choice([1, 2, 3])
    spec = models.model(rng, "loopy" if loopy else "tree", fam, n, zero_rate=rng.choice([0, 0, 0.2]) if fam != "gauss" else 0,
                        spread=rng.choice([0.5, 1.5]), joint_limit=1000 if fam != "sparse" else 100, max_scope=3, max_card=3,
                        n_vars=rng.randrange(2, 6), disconnected=0.05, big=0.04)
    if rng.random() < 0.12:
        spec = nlg.model(rng)
    ops = []
    restarts = rng.random() < 0.12
    for _ in range(rng.choice([2, 4, 8, 12])):
        r = rng.random()
        if r < 0.45:
            ops.append(["pass", rng.randrange(24)])
        elif r < 0.55:
            ops.append(["process", rng.randrange(1, 3), rng.choice([1e-1, 1e-6])])
        elif r < 0.65:
            ops.append(["interrupt", int(10 ** rng.uniform(0, 3.5)), rng.choice(["pass", "process"]), rng.randrange(24)])
        elif r < 0.7:
            ops.append(["ask", rng.randrange(100)])
        else:
            how = rng.choice(["deepcopy", "pickle", "pickle"])
            if restarts and rng.random() < 0.5:
                how = "restart"
            ops.append(["snap", how, rng.choice(["move", "stay"])])
    return {"spec": spec, "ops": ops, "perms": [rng.randrange(99) for _ in range(7)], "subsets": [],
            "hash_seed": rng.choice([1, 2])}


def state_of(cg):
    """Everything a graph knows, as reference objects."""
    net = nets.Net(cg)
    out = {"n": cg.num_messages_passed, "ends": net.ends, "vars": [sorted(c.var_names) for c in cg._clusters],
           "ids": [c.cluster_id for c in cg._clusters], "history": [float(x) for x in cg.sync_message_passing_max_distances],
           "pots": [refs.read(c.factor) for c in cg._clusters],
           "pending": [refs.read(p.next_message.factor) for p in net.paths],
           "gains": [float(p.next_information_gain) for p in net.paths],
           "partial": [bool(getattr(p, "message_partially_passed", False)) for p in net.paths],
           "seps": [list(p.sender_cluster.get_sepset(p.receiver_cluster.cluster_id)) for p in net.paths]}
    return out


def compare(a, b, where):
    for key in ("n", "ends", "vars", "ids", "partial", "seps"):
        if a[key] != b[key]:
            raise Violation("snapshot-differs", f"{where}: {key}: {a[key]} and {b[key]}")
    for key in ("pots", "pending"):
        for i, (x, y) in enumerate(zip(a[key], b[key])):
            d = refs.diff(x, y, 1e-9 * (1 + y.scale()))
            if d:
                raise Violation("snapshot-differs", f"{where}: {key} {i}: {d}")
    for key in ("gains", "history"):
        if len(a[key]) != len(b[key]) or any(not (x == y or abs(x - y) <= 1e-7 * (1 + abs(y)) or (math.isnan(x) and math.isnan(y)))
                                             for x, y in zip(a[key], b[key])):
            raise Violation("snapshot-differs", f"{where}: {key}: {a[key]} and {b[key]}")


def step(cg, op, spec, ctx):
    """One step of the workload on a graph."""
    net = nets.Net(cg)
    if op[0] in ("pass", "process"):
        nets.apply_op(net, op, ctx)
    elif op[0] == "ask":
        free = [[v for v in f["scope"] if v not in spec["evidence"] and v not in spec["special"]] for f in spec["factors"]]
        free = [s for s in free if s]
        if free:
            cg.get_marginal(free[op[1] % len(free)])
        if not spec.get("affine"):
            cg.get_posterior_joint()
    elif op[0] == "interrupt":
        trap = monitor.Interrupter(op[1], KeyboardInterrupt("injected by the simulator"), True)
        try:
            with monitor.Instants(trap):
                if op[2] == "pass" and len(net):
                    net.deliver(op[3] % len(net))
                else:
                    cg.process_graph(tol=1e-9, max_iter=2)
        except KeyboardInterrupt:
            pass
        if trap.fired:
            ctx.count("fault: interrupt while processing")
    else:
        raise HarnessError(op[0])


def remote_run(blob, ops, spec):
    """In a new interpreter: restore, go on, and save again."""
    from ..core import Ctx
    cg = pickle.loads(blob)
    ctx = Ctx()
    for op in ops:
        step(cg, op, spec, ctx)
    return pickle.dumps(cg)


def shaky(cg, ties):
    """Whether rounding decides which message is passed next: equal gains, or messages that are almost vacuous."""
    gains = sorted((float(p.next_information_gain) for p in cg.graph_message_paths), reverse=True)
    if ties and len(gains) > 1 and 1e-12 < gains[0] < np.inf and gains[0] - gains[1] <= 1e-7 * gains[0]:
        return True
    for p in cg.graph_message_paths:
        for m in (p.next_message, p.previously_sent_message):
            g = m and refs.read(m.factor)
            if isinstance(g, refs.Gauss) and np.abs(np.linalg.eigvalsh(g.K)).min() < 1e-7 * (1 + g.scale()):
                return True
    return False


def ambiguous(blob, ops, spec):
    """Whether rounding (which depends on the hash seed) may decide what the steps do."""
    from veroku import cluster_graph
    from ..core import Ctx
    cg, seen, cls = pickle.loads(blob), [], cluster_graph._GraphMessagePath
    real = cls.pass_next_message

    def watched(self, *args, **kw):
        if not seen and shaky(cg, True):
            seen.append(True)
        return real(self, *args, **kw)
    cls.pass_next_message = watched
    try:
        for op in ops:
            step(cg, op, spec, Ctx())
    finally:
        cls.pass_next_message = real
    return bool(seen) or shaky(cg, False)


def dumps(cg):
    return pickle.dumps(cg)


def execute(scn, ctx):
    spec = scn["spec"]
    truth = models.Truth(spec)
    if not truth.possible():
        raise Skip("impossible model")
    gauss = spec["family"] == "gauss"
    try:
        run(scn, ctx, spec, truth, gauss)
    except np.linalg.LinAlgError:
        if gauss and spec["structure"] != "tree":
            raise Skip("improper Gaussian message in a loopy graph") from None
        raise
    except remote.RemoteError as e:
        if e.inside:
            raise Violation("restart-failed", f"{e.kind}: {e.text[-700:]}") from None
        raise HarnessError(str(e)) from None


def run(scn, ctx, spec, truth, gauss):
    cg = models.build_graph(spec)
    frozen = []          # [graph or bytes, state when frozen, steps done since, how]
    ctx.log(scn["ops"])
    ctx.nontrivial = False
    for op in scn["ops"]:
        ctx.step()
        if op[0] != "snap":
            step(cg, op, spec, ctx)
            for f in frozen:
                f[2].append(op)
            ctx.nontrivial = ctx.nontrivial or bool(frozen)
            continue
        ctx.count(f"fault: snapshot by {op[1]}")
        state = state_of(cg)
        if op[1] == "deepcopy":
            other = copy.deepcopy(cg)
        else:
            other = pickle.loads(dumps(cg))
        compare(state_of(other), state, f"directly after {op[1]}")
        compare(state_of(cg), state, f"original directly after {op[1]}")
        if op[1] == "restart":
            frozen.append([dumps(cg), state, [], "restart"])
        elif op[2] == "move":
            frozen.append([cg, state, [], f"original after {op[1]}"])
            cg = other
        else:
            frozen.append([other, state, [], op[1]])
    final = state_of(cg)
    for f in frozen:
        where = f"{f[3]} snapshot, {len(f[2])} steps later"
        if isinstance(f[0], bytes):
            back = pickle.loads(remote.call(scn["hash_seed"], "sim.props.c12.remote_run", f[0], f[2], spec))
            ctx.count("fault: crash and restart in a new interpreter")
        else:
            compare(state_of(f[0]), f[1], where + " (should not have changed)")
            back = f[0]
            for op in f[2]:
                step(back, op, spec, ctx)
            ctx.count("fault: crash and restart from an earlier snapshot")
        try:
            compare(state_of(back), final, where + ", same steps repeated")
        except Violation:
            if not (isinstance(f[0], bytes) and ambiguous(f[0], f[2], spec)):
                raise
            ctx.count("restarts not compared step by step: rounding decides")
        f[0] = back
    ctx.log(final["n"], [round(p.scale(), 6) for p in final["pots"]])
    compare(state_of(cg), final, "active graph while snapshots were resumed")
    # all of them finish with the right answers
    want = truth.joint()
    given = spec["special"] if spec["special"] and any(None in f.get("logp", []) for f in spec["factors"]) else None
    for g in [cg] + [f[0] for f in frozen[:2]]:
        net = nets.Net(g)
        if net.n_clusters == 1:
            g.process_graph()
        if net.n_clusters > 1 and not spec["special"] and not spec.get("affine"):
            c02.check_joint(g, want, ctx, 1e-7 if gauss else 1e-9, "at the end", given)
        if net.acyclic():
            g.process_graph(tol=1e-3, max_iter=net.n_clusters)
            for _ in range(1 + bool(spec.get("affine"))):
                nets.fair_rounds(net, scn["perms"], ctx)
            c01.check_all(g, truth, spec, scn, ctx, models.accuracy(spec), False, "after resuming")


def shrink(scn):
    for ops in nets.shrink_list(scn["ops"]):
        yield dict(scn, ops=ops)
    for i, op in enumerate(scn["ops"]):
        if op[0] == "snap" and op[1] != "deepcopy":
            yield dict(scn, ops=scn["ops"][:i] + [[op[0], "deepcopy", op[2]]] + scn["ops"][i + 1:])
    for spec in models.shrink_spec(scn["spec"]):
        if spec["factors"]:
            yield dict(scn, spec=spec)
