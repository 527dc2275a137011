"""C10: hash seed, names and argument orders do not matter."""
import numpy as np

from .. import models, refs, seams, remote, nlg, net as nets
from ..core import Violation, Skip, HarnessError
from . import c01

ID = "C10"
SEEDS = [1, 2, 3, 4]
PLAN = {"quick": 1600, "thorough": 120000}
RULE = ("one evaluation = one simulated run: a random model is solved in 3-5 configurations: other orders of factors, of each "
        "factor's variables, of evidence and query variables, other variable names, a simulated set iteration order, and "
        "(some) in a new interpreter with another PYTHONHASHSEED; all answers and the joint are compared with one reference. "
        "Distinct = distinct digest of the model and its configurations; non-trivial = at least two factors.")
ASSUMPTIONS = ["brute-force reference in sim/refs.py is right", "loopy graphs depend on the order of factors by design: only their "
               "joint distribution is compared"]
COMPONENTS = {"real": ["ClusterGraph", "Cluster", "factors", "new interpreters with other hash seeds"],
              "stub": ["iteration order of sets (in-process configurations)"]}


def prepare():
    remote.start(SEEDS)


def gen(rng, tier):
    fam = rng.choice(["cat", "cat", "cat", "gauss", "gauss", "sparse", "sparse"])
    loopy = rng.random() < 0.25
    n = rng.choice([1, 2, 3, 3, 4, 5, 6]) if fam != "sparse" else rng.choice([1, 2, 3, 4])
    spec = models.model(rng, "loopy" if loopy else "tree", fam, n, zero_rate=rng.choice([0, 0, 0.25]) if fam != "gauss" else 0,
                        spread=rng.choice([0.5, 1.5]), joint_limit=1500 if fam != "sparse" else 200, max_scope=4 if fam == "cat" else 3,
                        max_card=4, n_vars=rng.randrange(2, 6), disconnected=0.05, big=0.04)
    if rng.random() < 0.1:
        spec = nlg.model(rng)
    variants = []
    k = len({v for f in spec["factors"] for v in f["scope"]})
    for _ in range(rng.choice([2, 3, 4])):
        v = {"perm": rng.randrange(10 ** 6) if rng.random() < 0.8 else None,
             "scopes": rng.randrange(10 ** 6) if rng.random() < 0.8 else None,
             "names": models.names(rng, k) if rng.random() < 0.6 else None,
             "set_order": rng.randrange(10 ** 6),
             "query": rng.randrange(10 ** 6),
             "hash_seed": rng.choice(SEEDS) if rng.random() < 0.25 else None,
             "mode": rng.choice(["fair", "fair", "process"])}
        variants.append(v)
    return {"spec": spec, "variants": variants}


def transform(spec, v):
    """The same model presented differently, and the renaming used."""
    import random
    out = dict(spec)
    allv = sorted({x for f in spec["factors"] for x in f["scope"]})
    ren = {x: x for x in allv}
    if v["scopes"] is not None:
        r = random.Random(v["scopes"])
        new = []
        for f in out["factors"]:
            order = list(f["scope"])
            r.shuffle(order)
            ref = models.ref_factor(f, spec).reorder(order)
            g = dict(f, scope=order)
            if spec["family"] == "gauss":
                g.update(K=ref.K.tolist(), h=ref.h.tolist())
                if "nlg" in f:
                    g["nlg"] = nlg.shuffled(r, f["nlg"])
            else:
                g["logp"] = [None if x == refs.NEG else float(x) for x in ref.logp.ravel()]
            new.append(g)
        out = dict(out, factors=new)
    if v["perm"] is not None:
        r = random.Random(v["perm"])
        fs = list(out["factors"])
        r.shuffle(fs)
        out = dict(out, factors=fs)
        for kind in ("evidence", "special"):
            items = list(out[kind].items())
            r.shuffle(items)
            out[kind] = dict(items)
    if v["names"] is not None and len(v["names"]) >= len(allv):
        ren = dict(zip(allv, v["names"]))
        out = models.rename(out, ren)
    return out, ren


def solve(spec, v):
    """Answers of one configuration: ([reference object per query], joint or None, acyclic)."""
    import random
    from ..core import Ctx
    r = random.Random(v["query"])
    cg = models.build_graph(spec)
    net = nets.Net(cg)
    observed = set(spec["evidence"]) | set(spec["special"])
    joint = None if net.n_clusters == 1 and spec["special"] or spec.get("affine") else refs.read(cg.get_posterior_joint())
    tree = net.acyclic()
    if tree:
        if v["mode"] == "process" or net.n_clusters == 1:
            cg.process_graph(tol=1e-12, max_iter=50)
        else:
            for _ in range(1 + bool(spec.get("affine"))):
                nets.fair_rounds(net, [r.randrange(100) for _ in range(7)], Ctx())
    answers = []
    if tree:
        for f in spec["factors"]:
            free = [x for x in f["scope"] if x not in observed]
            if not free:
                continue
            for _ in range(2):
                q = r.sample(free, r.randrange(1, len(free) + 1))
                answers.append((q, refs.read(cg.get_marginal(list(q)))))
    return answers, joint, tree


def remote_solve(spec, v):
    answers, joint, tree = solve(spec, v)
    return [(q, pack(a)) for q, a in answers], None if joint is None else pack(joint), tree


def pack(a):
    if isinstance(a, refs.Table):
        return ("table", a.vrs, a.logp)
    return ("gauss", a.vrs, a.K, a.h, a.g)


def unpack(p):
    return refs.Table(p[1], p[2]) if p[0] == "table" else refs.Gauss(p[1], p[2], p[3], p[4])


def execute(scn, ctx):
    spec = scn["spec"]
    truth = models.Truth(spec)
    if not truth.possible():
        raise Skip("impossible model")
    gauss = spec["family"] == "gauss"
    want_joint = truth.joint()
    ctx.nontrivial = len(spec["factors"]) > 1
    for v in scn["variants"]:
        ctx.step()
        tspec, ren = transform(spec, v)
        back = {b: a for a, b in ren.items()}
        label = {k: v[k] for k in ("perm", "scopes", "hash_seed", "mode")}
        if v["hash_seed"] is not None:
            ctx.count(f"fault: restarted with another hash seed")
            try:
                answers, joint, tree = remote.call(v["hash_seed"], "sim.props.c10.remote_solve", tspec, v)
            except remote.RemoteError as e:
                if e.inside:
                    raise Violation(f"unexpected-{e.kind}", f"{label}: {e.text[-800:]}") from None
                raise HarnessError(str(e)) from None
            answers = [(q, unpack(a)) for q, a in answers]
            joint = None if joint is None else unpack(joint)
        else:
            with seams.set_order(v["set_order"]):
                answers, joint, tree = solve(tspec, v)
            ctx.count("fault: simulated set iteration order")
        for what in ("perm", "scopes", "names"):
            if v[what] is not None:
                ctx.count(f"configuration: other {what}")
        if joint is not None:
            ctx.count("joints compared")
            j = renamed(joint, back)
            d = refs.diff(j, want_joint, (1e-7 if gauss else 1e-9) * (1 + want_joint.scale()))
            if d:
                raise Violation("joint-depends", f"configuration {label}: {d}")
        approx = v["mode"] == "process"
        for q, a in answers:
            q = [back[x] for x in q]
            c01.judge(renamed(a, back), truth.marginal(q), q, truth, ctx,
                      (1e-3 if not gauss else 2e-2) if approx else models.accuracy(spec), approx, f"configuration {label}")
        ctx.log(label, tree, len(answers))


def renamed(a, back):
    for x in a.vrs:
        if x not in back:
            raise Violation("unknown-variable", f"{x} is not a variable of the model")
    names = [back[x] for x in a.vrs]
    return refs.Table(names, a.logp) if isinstance(a, refs.Table) else refs.Gauss(names, a.K, a.h, a.g)


def shrink(scn):
    for vs in nets.shrink_list(scn["variants"]):
        if vs:
            yield dict(scn, variants=vs)
    for i, v in enumerate(scn["variants"]):
        for key in ("hash_seed", "names", "perm", "scopes"):
            if v[key] is not None:
                yield dict(scn, variants=scn["variants"][:i] + [dict(v, **{key: None})] + scn["variants"][i + 1:])
    for spec in models.shrink_spec(scn["spec"]):
        if spec["factors"]:
            yield dict(scn, spec=spec)
