"""C03: the built cluster graph is a valid message network whatever order sets are iterated in."""
import random

import numpy as np

from .. import models, refs, seams
from ..core import Violation

ID = "C03"
PLAN = {"quick": 6000, "thorough": 500000}
RULE = ("one evaluation = one simulated run: a random list of factors and evidence, built 3 times under different simulated "
        "set-iteration orders; all structural invariants are checked on each network and the networks are compared. "
        "Distinct = distinct digest of the built networks; non-trivial = at least one edge.")
ASSUMPTIONS = ["sets made with set() inside veroku iterate in the simulator's order; set displays and comprehensions "
               "iterate in the interpreter's (their orders are varied by C10 across hash seeds)"]
COMPONENTS = {"real": ["ClusterGraph construction", "Cluster", "_GraphMessagePath", "networkx"],
              "stub": ["iteration order of sets"]}


def gen(rng, tier):
    fam = rng.choice(["cat", "cat", "gauss", "sparse"])
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 14]) if fam != "sparse" else rng.choice([1, 2, 3, 4, 5])
    if tier == "thorough" and rng.random() < 0.05:
        n = rng.randrange(15, 30)
    spec = models.model(rng, rng.choice(["tree", "loopy", "loopy", "loopy"]), fam, n, max_card=3, joint_limit=1e30,
                        max_scope=rng.choice([2, 3, 4]) if fam != "sparse" else 2, n_vars=rng.randrange(1, n + 4),
                        spread=2.0)
    if rng.random() < 0.3 and fam != "sparse":
        # overlapping families of scopes: most of them share most of their variables
        base = [v for f in spec["factors"] for v in f["scope"]][:5]
        base = sorted(set(base))
        for f in list(spec["factors"]):
            if rng.random() < 0.4 and len(base) > 1:
                sub = rng.sample(base, rng.randrange(1, len(base) + 1))
                if fam == "gauss":
                    g = dict(models.gauss_params(rng, len(sub)), scope=sub)
                else:
                    shape = [spec["cards"][v] for v in sub]
                    g = {"scope": sub, "logp": models.table_params(rng, shape, [0] * len(sub), 0, 2.0), "ctor": "tensor"}
                spec["factors"].insert(rng.randrange(len(spec["factors"]) + 1), g)
        if not models.usable(spec):
            spec["evidence"], spec["special"] = {}, {}
    return {"spec": spec, "orders": [rng.randrange(10 ** 6) for _ in range(3)], "points": rng.randrange(10 ** 6)}


def network(cg):
    """{(i, j): separator} as held at cluster i towards cluster j; paths as list of (i, j)."""
    pos = {c.cluster_id: i for i, c in enumerate(cg._clusters)}
    if len(pos) != len(cg._clusters):
        raise Violation("cluster-ids", "cluster ids are not unique")
    seps = {}
    for i, c in enumerate(cg._clusters):
        for nid in c.neighbour_ids:
            if nid not in pos:
                raise Violation("unknown-neighbour", f"{nid}")
            seps[(i, pos[nid])] = list(c.get_sepset(nid))
    paths = [(pos[p.sender_cluster.cluster_id], pos[p.receiver_cluster.cluster_id]) for p in cg.graph_message_paths]
    for p in cg.graph_message_paths:
        if not any(c is p.sender_cluster for c in cg._clusters) or not any(c is p.receiver_cluster for c in cg._clusters):
            raise Violation("path-ends", "a message path ends in a cluster that is not part of the graph")
    outward = sorted((i, pos[p.receiver_cluster.cluster_id]) for i, c in enumerate(cg._clusters)
                     for p in c._outward_message_paths)
    if outward != sorted(paths):
        raise Violation("outward-paths", f"clusters recompute {outward} but the graph has {sorted(paths)}")
    return seps, paths


def value_at(ref, x):
    if isinstance(ref, refs.Table):
        return float(ref.logp[tuple(x[v] for v in ref.vrs)])
    y = np.array([x[v] for v in ref.vrs], dtype=float)
    return float(-0.5 * y @ ref.K @ y + ref.h @ y + ref.g)


def check_network(cg, spec, rng, ctx):
    observed = set(spec["evidence"]) | set(spec["special"])
    seps, paths = network(cg)
    scopes = [list(c.var_names) for c in cg._clusters]
    # separators
    for (i, j), sep in seps.items():
        if i == j or (j, i) not in seps:
            raise Violation("one-sided-edge", f"{i}-{j}")
        if len(set(sep)) != len(sep) or not sep:
            raise Violation("separator", f"{sep}")
        if set(sep) != set(seps[(j, i)]):
            raise Violation("separators-differ", f"{sep} and {seps[(j, i)]}")
        if not set(sep) <= set(scopes[i]) & set(scopes[j]) - observed:
            raise Violation("separator-scope", f"{sep} between {scopes[i]} and {scopes[j]}, observed {sorted(observed)}")
    if sorted(paths) != sorted(seps):
        raise Violation("paths", f"message paths {sorted(paths)} for edges {sorted(seps)}")
    # running intersection
    for v in sorted({v for s in scopes for v in s} - observed):
        holders = [i for i, s in enumerate(scopes) if v in s]
        edges = [(i, j) for (i, j), sep in seps.items() if i < j and v in sep]
        if len(edges) != len(holders) - 1:
            raise Violation("running-intersection", f"{v}: {len(edges)} edges {edges} over clusters {holders}")
        reach, grow = {holders[0]}, True
        while grow:
            grow = False
            for i, j in edges:
                if (i in reach) != (j in reach):
                    reach |= {i, j}
                    grow = True
        if reach != set(holders):
            raise Violation("running-intersection", f"{v}: edges {edges} do not connect clusters {holders}")
        ctx.count("variables checked")
    # every factor exactly once
    red = models.evidence_reduced(spec)
    pots = [refs.read(c.factor) for c in cg._clusters]
    for _ in range(4):
        x = {}
        for f in spec["factors"]:
            for v in f["scope"]:
                x[v] = rng.randrange(spec["cards"][v]) if spec["family"] != "gauss" else rng.uniform(-2, 2)
        x.update(spec["evidence"])
        want = sum(value_at(r, x) for r in red)
        got = sum(value_at(p, x) for p in pots)
        if not abs(want - got) <= 1e-7 * (1 + sum(abs(value_at(p, x)) for p in red)):
            raise Violation("factors-not-once", f"log product of cluster potentials {got}, of the factors {want}")
    if sorted({v for s in scopes for v in s}) != sorted({v for r in red for v in r.vrs}):
        raise Violation("variables", "the graph's variables are not those of the factors")
    return {(i, j): sorted(s) for (i, j), s in seps.items()}, scopes


def execute(scn, ctx):
    spec = scn["spec"]
    results = []
    for seed in scn["orders"]:
        with seams.set_order(seed) as s:
            cg = models.build_graph(spec)
            ctx.count("fault: set iteration orders decided by the simulator", s.shuffles)
        results.append(check_network(cg, spec, random.Random(scn["points"]), ctx))
        ctx.step(len(results[-1][0]) + 1)
    ctx.nontrivial = bool(results[0][0])
    ctx.count("edges", len(results[0][0]) // 2)
    ctx.log(sorted(results[0][0].items()), results[0][1])
    for r in results[1:]:
        if [sorted(s) for s in r[1]] != [sorted(s) for s in results[0][1]] or r[0] != results[0][0]:
            raise Violation("order-dependent", f"built {results[0]} and {r} under different set orders")


def shrink(scn):
    if len(scn["orders"]) > 1:
        yield dict(scn, orders=scn["orders"][:1])
        yield dict(scn, orders=scn["orders"][:2])
        yield dict(scn, orders=scn["orders"][1:])
    for spec in models.shrink_spec(scn["spec"]):
        if spec["factors"]:
            yield dict(scn, spec=spec)
