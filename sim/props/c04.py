"""C04: process_graph is a bounded, greedy scheduler that reports convergence honestly."""
import contextlib
import copy

import numpy as np

from .. import models, monitor, refs, seams, net as nets
from ..core import Violation, Skip

ID = "C04"
PLAN = {"quick": 3500, "thorough": 300000}
RULE = ("one evaluation = one simulated run: a history of process_graph calls (random tolerance and limit) and foreign "
        "deliveries on a random tree or loopy model; every delivery made by process_graph is observed at the message "
        "path and compared with an independent computation of all pending information gains. Distinct = distinct digest "
        "of (structure, delivered paths, gains); non-trivial = process_graph delivered at least one message.")
ASSUMPTIONS = ["information gain = KL(previously sent || pending) of the normalised messages, or for a path never used "
               "KL(pending || uniform) (tables) / infinity (Gaussians)",
               "runs whose (loopy) Gaussian messages are not proper distributions are skipped"]
COMPONENTS = {"real": ["ClusterGraph.process_graph", "Cluster", "_GraphMessagePath", "factors"],
              "stub": ["iteration order of sets", "deliveries are observed by a wrapper around pass_next_message"]}
NEVER = float("inf")


def gen(rng, tier):
    fam = rng.choice(["cat", "cat", "cat", "gauss", "gauss", "sparse"])
    loopy = rng.random() < 0.5
    n = rng.choice([1, 2, 3, 4, 4, 5, 5, 6, 7]) if fam != "sparse" else rng.choice([2, 3, 3])
    spec = models.model(rng, "loopy" if loopy else "tree", fam, n, zero_rate=rng.choice([0, 0, 0.2]) if fam != "gauss" else 0,
                        spread=rng.choice([0.3, 1.0, 2.0]), joint_limit=3000, max_scope=3, n_vars=rng.randrange(2, 7),
                        max_card=3, big=0.05, local=True)
    if fam == "gauss" and rng.random() < 0.5:
        weaken(rng, spec)
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.4:
            ops.append(["pass", rng.randrange(24)])
        if rng.random() < 0.15:
            ops.append(["interrupt", rng.random(), rng.choice(["KeyboardInterrupt", "MemoryError"]), rng.choice([1, 2]),
                        rng.choice([1e-1, 1e-3])])
        ops.append(["process", rng.choice([0, 1, 1, 2, 5, 20]), rng.choice([1.0, 1e-1, 1e-2, 1e-3, 1e-3, 1e-5, 1e-8, 1e-10])])
    if rng.random() < 0.02:
        # many messages: a negative tolerance is never reached
        spec = models.model(rng, rng.choice(["loopy", "tree"]), "cat", rng.choice([2, 3, 4]), joint_limit=300, max_scope=3,
                            n_vars=rng.randrange(2, 5), max_card=2)
        ops.append(["process", rng.choice([40, 100, 150]), rng.choice([-1.0, -1.0, 0.0, 1e-13])])
    return {"spec": spec, "ops": ops, "set_order": rng.randrange(10 ** 6), "debug": rng.random() < 0.3}


def weaken(rng, spec):
    """Weak couplings, so that messages carry little precision."""
    e = 10 ** rng.uniform(-2.5, -0.5)
    for f in spec["factors"]:
        n = len(f["scope"])
        f["K"] = [[f["K"][i][j] * (1 if i == j else e) for j in range(n)] for i in range(n)]
        if rng.random() < 0.5:
            f["K"] = [[x * 0.05 for x in row] for row in f["K"]]
            f["h"] = [x * 0.2 for x in f["h"]]


class Watch:
    """Independent view of the pending messages."""

    def __init__(self, net, gauss):
        self.net, self.gauss = net, gauss
        self.sent = [None] * len(net)      # last message handed over, as a reference object
        self.sync()

    def sync(self):
        for i, p in enumerate(self.net.paths):
            self.sent[i] = None if p.previously_sent_message is None else refs.read(p.previously_sent_message.factor)

    def gains(self):
        return [self.gain(i) for i in range(len(self.net))]

    def gain(self, i):
        nxt = refs.read(self.net.paths[i].next_message.factor)
        prev = self.sent[i]
        if self.gauss:
            for g in (nxt, prev):
                if g is not None and not np.linalg.eigvalsh(g.K).min() > 1e-7:
                    raise Skip("improper Gaussian message")
        if prev is None:
            if self.gauss:
                return NEVER
            p = nxt.normalize().logp
            return float(np.sum(np.where(p > refs.NEG, np.exp(p) * p, 0.0)) + np.log(p.size))
        return prev.kl(nxt)


def close(a, b, tol_abs, tol_rel=1e-5):
    return a == b or abs(a - b) <= tol_abs + tol_rel * max(abs(a), abs(b))


def execute(scn, ctx):
    with seams.set_order(scn["set_order"]):
        run(scn, ctx)


def run(scn, ctx):
    spec = scn["spec"]
    truth = models.Truth(spec)
    if not truth.possible():
        raise Skip("impossible model")
    gauss = spec["family"] == "gauss"
    # double precision: KL of nearly equal Gaussians and of nearly equal tables
    noise = 1e-8 if gauss else 1e-12
    cg = models.build_graph(spec)
    cg.debug = bool(scn.get("debug"))
    recorded = []     # the messages that process_graph should have recorded (debug mode)
    net = nets.Net(cg)
    tree = net.acyclic()
    watch = Watch(net, gauss)
    rank = {id(p): i for i, p in enumerate(net.paths)}
    ctx.nontrivial = False
    ctx.log(sorted(net.ends), scn["ops"])
    total = cg.num_messages_passed
    foreign = 0
    for op in scn["ops"]:
        if op[0] == "pass":
            if len(net):
                net.deliver(op[1] % len(net))
                watch.sync()
                ctx.count("foreign deliveries")
            continue
        if op[0] == "interrupt":
            interrupt(cg, op, gauss, tree, ctx)
            total = cg.num_messages_passed
            if cg.debug:    # what was recorded before the exception arrived
                index = {c.cluster_id: k for k, c in enumerate(cg._clusters)}
                recorded = [((index[m.sender_id], index[m.receiver_id]), refs.read(m.factor)) for m in cg.passed_messages]
            watch.sync()
            continue
        limit, tol = op[1] * len(net), op[2]
        seen = []
        completed = []    # messages that an interrupted call has not passed completely come first, and are extra

        def before(path):
            if id(path) not in rank:
                raise Violation("foreign-path", "process_graph used a message path that is not part of the graph")
            i = rank[id(path)]
            ctx.step()
            if cg.debug:
                recorded.append((net.ends[i], refs.read(path.next_message.factor)))
            if path.message_partially_passed:
                if seen:
                    raise Violation("late-completion", f"{net.ends[i]} is completed after other messages have been passed")
                return True
            gains = watch.gains()
            best = max(gains)
            if not (gains[i] == best or gains[i] >= best - noise - 1e-5 * abs(best)):
                raise Violation("not-greedy", f"delivered {net.ends[i]} with gain {gains[i]:.6g} while {best:.6g} was pending "
                                              f"at {net.ends[gains.index(best)]}")
            return False

        def after(path, completion):
            i = rank[id(path)]
            watch.sync()
            if completion:
                completed.append(i)
                return
            gains = watch.gains()
            seen.append(max(gains))
            ctx.log(net.ends[i], f"{seen[-1]:.4g}")
            if len(seen) > limit:
                raise Violation("too-many-messages", f"{len(seen)} messages with max_iter {op[1]} and {len(net)} paths")

        try:
            with observed(net, before, after):
                cg.process_graph(tol=tol, max_iter=op[1])
        except np.linalg.LinAlgError:
            if gauss and not tree:
                raise Skip("improper Gaussian message") from None
            raise
        n = len(seen)
        ctx.count("interrupted deliveries completed", len(completed))
        ctx.count("process_graph calls")
        ctx.count("messages passed by process_graph", n)
        if n:
            ctx.nontrivial = True
        if cg.num_messages_passed - total != n + len(completed):
            raise Violation("message-counter", f"counter says {cg.num_messages_passed - total}, {n} were passed"
                                               + f" and {len(completed)} completed" * bool(completed))
        total = cg.num_messages_passed
        if cg.debug:
            record(cg, net, recorded, gauss, ctx)
        hist = [float(x) for x in cg.sync_message_passing_max_distances]
        if len(hist) != n:
            raise Violation("history-length", f"{len(hist)} entries for {n} messages")
        for k, (h, r) in enumerate(zip(hist, seen)):
            if not close(h, r, noise):
                raise Violation("history-value", f"entry {k} is {h:.8g}, the largest pending gain was {r:.8g}")
        if not len(net):
            continue
        now = max(watch.gains())
        if n < limit:
            ctx.count("calls that converged")
            if not now <= tol * (1 + 1e-5) + noise:
                raise Violation("not-converged", f"stopped after {n} of {limit} messages, but a pending message has gain "
                                                 f"{now:.6g} > tolerance {tol}")
            if not gauss:
                calibrated(cg, net, watch, tol, ctx)
        elif limit:
            ctx.count("calls that reached the limit")
        if tree and op[1] >= net.n_clusters and not now <= max(tol, 0) * (1 + 1e-5) + noise:
            raise Violation("no-convergence", f"acyclic graph of {net.n_clusters} clusters: gain {now:.6g} still pending "
                                              f"after max_iter={op[1]}")


def interrupt(cg, op, gauss, tree, ctx):
    """process_graph, stopped by an exception at one of the instants it goes through."""
    exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[op[2]]("injected by the simulator")
    with contextlib.suppress(np.linalg.LinAlgError) if gauss and not tree else contextlib.nullcontext():
        meter = monitor.Interrupter(graph_only=True)
        twin = copy.deepcopy(cg)
        with monitor.Instants(meter):
            twin.process_graph(tol=op[4], max_iter=op[3])
        trap = monitor.Interrupter(int(op[1] * meter.count), exc, True)
        try:
            with monitor.Instants(trap):
                cg.process_graph(tol=op[4], max_iter=op[3])
        except (KeyboardInterrupt, MemoryError) as e:
            if e is not exc:
                raise
        if trap.fired:
            ctx.count(f"fault: {op[2]} in process_graph")
            ctx.log("interrupted", trap.fired)


def record(cg, net, recorded, gauss, ctx):
    """In debug mode the messages that were passed are recorded, in order and as they were when they were passed."""
    if len(cg.passed_messages) != len(recorded):
        raise Violation("message-record", f"{len(cg.passed_messages)} messages recorded, {len(recorded)} were passed")
    index = {c.cluster_id: k for k, c in enumerate(cg._clusters)}
    for k, (msg, (ends, want)) in enumerate(zip(cg.passed_messages, recorded)):
        got = (index[msg.sender_id], index[msg.receiver_id])
        if got != ends:
            raise Violation("message-record", f"message {k} was passed along {ends}, recorded as {got}")
        d = refs.diff(refs.read(msg.factor), want, 1e-9 * (1 + want.scale()) if gauss else 1e-9)
        if d:
            raise Violation("message-record", f"message {k}, passed along {ends}, is recorded otherwise: {d}")
    ctx.count("recorded messages compared", len(recorded))


@contextlib.contextmanager
def observed(net, before, after):
    if not len(net):
        yield
        return
    cls = type(net.paths[0])
    orig = cls.pass_next_message

    def wrapper(self):
        token = before(self)
        out = orig(self)
        after(self, token)
        return out

    cls.pass_next_message = wrapper
    try:
        yield
    finally:
        cls.pass_next_message = orig


def calibrated(cg, net, watch, tol, ctx):
    """Both ends of an edge agree about the separator, to the accuracy implied by pending KL <= tol (Pinsker)."""
    special = cg.special_evidence
    pos = {e: i for i, e in enumerate(net.ends)}
    delta = np.sqrt(2 * (tol * 1.01 + 1e-9))
    for (a, b), i in pos.items():
        if a > b or (b, a) not in pos:
            continue
        j = pos[(b, a)]
        if watch.sent[i] is None or watch.sent[j] is None:
            continue
        sep = cg._clusters[a].get_sepset(cg._clusters[b].cluster_id)
        margs = []
        for c in (cg._clusters[a], cg._clusters[b]):
            t = refs.read(c.factor)
            t = t.reduce({v: special[v] for v in t.vrs if v in special})
            margs.append(np.exp(t.marginalize(sep).normalize().logp))
        ab = np.exp(watch.sent[i].normalize().reorder(sep).logp)
        ba = np.exp(watch.sent[j].normalize().reorder(sep).logp)
        z = float(np.sum(ab * ba))
        if z <= 0:
            continue
        # each end = (pending message) x (message received from the other end), normalised
        bound = 2 * delta * (ba.max() + ab.max()) / max(z - delta * max(ba.max(), ab.max()), 1e-300) + 1e-7
        if bound > 0.5 or z <= 2 * delta * max(ba.max(), ab.max()):
            continue
        ctx.count("separators compared between their ends")
        err = float(np.abs(margs[0] - margs[1]).sum())
        if not err <= bound:
            raise Violation("not-calibrated", f"clusters {a} and {b} disagree about {sep} by {err:.4g} (bound {bound:.4g}): "
                                              f"{refs.fmt(margs[0])} {refs.fmt(margs[1])}")


def shrink(scn):
    for ops in nets.shrink_list(scn["ops"]):
        yield dict(scn, ops=ops)
    for spec in models.shrink_spec(scn["spec"]):
        if spec["factors"]:
            yield dict(scn, spec=spec)
