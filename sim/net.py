"""
The message network of a cluster graph under a schedule chosen by the simulator.

Seam: the library delivers messages through `graph_message_paths[*].pass_next_message()`; process_graph is its own
scheduler (always the path with the largest information gain). Here the simulator delivers instead, in any order.
A path is addressed by its rank in (sender position, receiver position) order.
"""
from .core import HarnessError


class Net:
    def __init__(self, cg):
        self.cg = cg
        pos = {id(c): i for i, c in enumerate(cg._clusters)}
        self.paths = sorted(cg.graph_message_paths,
                            key=lambda p: (pos[id(p.sender_cluster)], pos[id(p.receiver_cluster)]))
        self.ends = [(pos[id(p.sender_cluster)], pos[id(p.receiver_cluster)]) for p in self.paths]
        self.held = {}
        self.n_clusters = len(cg._clusters)
        self.delivered = 0

    def __len__(self):
        return len(self.paths)

    def acyclic(self):
        """Whether the undirected graph is a forest."""
        parent = list(range(self.n_clusters))

        def find(i):
            while parent[i] != i:
                i = parent[i]
            return i

        for a, b in {tuple(sorted(e)) for e in self.ends}:
            a, b = find(a), find(b)
            if a == b:
                return False
            parent[a] = b
        return True

    def deliver(self, i):
        self.paths[i].pass_next_message()
        self.delivered += 1

    def hold(self, i):
        """Keep a copy of the message now pending on path i in the network (to be delivered late)."""
        self.held[i] = self.paths[i].next_message.copy()

    def deliver_held(self, i):
        """Deliver the outdated copy."""
        path = self.paths[i]
        if i not in self.held:
            return False
        path.next_message = self.held.pop(i)
        path.pass_next_message()
        path.recompute_next_message()
        self.delivered += 1
        return True


def gen_ops(rng, n_ops, kinds):
    """A schedule: [kind, path selector (resolved modulo the number of paths), ...]."""
    ops = []
    style = rng.choice(["uniform", "uniform", "skewed", "bursty", "starve"])
    bias = [rng.random() ** 3 for _ in range(24)]
    starved = set(rng.sample(range(24), rng.randrange(1, 12)))
    while len(ops) < n_ops:
        if style == "skewed":
            i = rng.choices(range(24), bias)[0]
        elif style == "starve":
            i = rng.randrange(24)
            if i in starved and len(ops) < 0.8 * n_ops:
                continue
        else:
            i = rng.randrange(24)
        kind = rng.choice(kinds)
        if kind == "burst":
            ops.append(["dup", i, rng.randrange(2, 5)])
        elif kind == "process":
            ops.append(["process", rng.randrange(0, 3), rng.choice([1e-1, 1e-3, 1e-9])])
        else:
            ops.append([kind, i])
        if style == "bursty" and rng.random() < 0.5:
            for _ in range(rng.randrange(1, 4)):
                ops.append(["pass", i])
    return ops[:n_ops]


def apply_op(net, op, ctx):
    """Execute one schedule entry; returns whether anything was delivered."""
    kind = op[0]
    ctx.step()
    if kind == "process":
        net.cg.process_graph(tol=op[2], max_iter=op[1])
        ctx.count("partial process_graph calls")
        return True
    if not len(net):
        return False
    i = op[1] % len(net)
    if kind == "pass":
        net.deliver(i)
        ctx.count("deliveries")
    elif kind == "dup":
        for _ in range(op[2]):
            net.deliver(i)
        ctx.count("deliveries", op[2])
        ctx.count("fault: duplicate delivery", op[2] - 1)
    elif kind == "hold":
        net.hold(i)
        ctx.count("fault: message delayed in the network")
        return False
    elif kind == "late":
        if net.held:
            net.deliver_held(sorted(net.held)[op[1] % len(net.held)])
            ctx.count("fault: outdated message delivered")
        else:
            net.deliver(i)
            ctx.count("deliveries")
    elif kind == "recompute":
        net.paths[i].recompute_next_message()
        ctx.count("fault: spurious recompute")
        return False
    else:
        raise HarnessError(kind)
    return True


def fair_rounds(net, perms, ctx):
    """As many rounds as there are clusters, every path once per round, in the given orders."""
    n = len(net)
    for r in range(net.n_clusters):
        order = sorted(range(n), key=lambda i: (perms[(r * 7 + i) % len(perms)], i)) if perms else range(n)
        for i in order:
            net.deliver(i)
            ctx.count("deliveries (fair phase)")
            ctx.step()


def shrink_list(items):
    n = len(items)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield items[:i] + items[i + size:]
        size //= 2
