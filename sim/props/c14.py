"""C14: non-linear Gaussian factors with affine transforms are exact, alone and in acyclic graphs."""
import copy

import numpy as np

from .. import models, refs, mix, nlg, seams, net as nets
from ..core import Violation, Skip, HarnessError
from . import c01, c09

ID = "C14"
PLAN = {"quick": 6000, "thorough": 400000}
RULE = ("one evaluation = one simulated run: (graph) a random forest of Gaussian priors, affine non-linear Gaussian factors and "
        "Gaussian updates with observed variables, a random schedule of deliveries with duplicates, delayed and outdated "
        "messages and partial process_graph calls, then fair rounds and/or process_graph, and all marginals against the "
        "equivalent linear Gaussian model; or (factor) a history of operations on one non-linear Gaussian or mixture of them, "
        "every query against the equivalent Gaussian or Gaussian mixture. Distinct = distinct digest of structure, schedule "
        "and results; non-trivial = a message was delivered or an operation made.")
ASSUMPTIONS = ["reference in sim/refs.py is right", "the transform looks its variables up by the names it is given",
               "a message or update concerns only conditioning or only conditional variables of a non-linear Gaussian (others "
               "are rejected with ValueError)", "evidence never covers a complete Gaussian factor or both sides of a non-linear one"]
COMPONENTS = {"real": ["NonLinearGaussian", "NonLinearGaussianMixture", "sigma points", "Gaussian", "GaussianMixture", "ClusterGraph",
                       "Cluster", "_GraphMessagePath"],
              "stub": ["iteration order of sets", "message scheduler (in the scheduled phase)"]}


# --- generation --------------------------------------------------------------------------------------------------------

def gen(rng, tier):
    r = rng.random()
    scn = gen_graph(rng, tier) if r < 0.5 else gen_split(rng) if r < 0.58 else gen_factor(rng)
    scn["set_order"] = rng.randrange(10 ** 6)
    return scn


def gen_graph(rng, tier):
    n_nlg = rng.choice([1, 1, 2, 2, 3, 4])
    pool = models.names(rng, 24, rng.random() < 0.3)
    rng.shuffle(pool)
    fresh = lambda k: [pool.pop() for _ in range(k)]
    factors, groups = [], []   # groups: [variables, component]
    comp = {}

    def prior():
        g = fresh(rng.choice([1, 1, 2, 3]))
        factors.append(dict(models.gauss_params(rng, len(g)), scope=list(g), kind="gauss"))
        comp[len(groups)] = len(groups)
        groups.append(g)
        return len(groups) - 1
    prior()
    for _ in range(n_nlg):
        if len(pool) < 8:
            break
        gi = prior() if rng.random() < 0.25 else rng.randrange(len(groups))
        x = rng.sample(groups[gi], rng.choice([1, len(groups[gi])]))
        others = [j for j in range(len(groups)) if comp[j] != comp[gi]]
        if others and rng.random() < 0.6:
            j = rng.choice(others)
            x += rng.sample(groups[j], rng.choice([1, len(groups[j])]))
            old = comp[j]
            for k in comp:
                if comp[k] == old:
                    comp[k] = comp[gi]
        rng.shuffle(x)
        y = fresh(rng.choice([1, 1, 2]))
        factors.append(dict(nlg.params(rng, x, y), kind="nlg"))
        comp[len(groups)] = comp[gi]
        groups.append(y)
    for _ in range(rng.choice([0, 0, 1, 2])):
        g = rng.choice(groups)
        s = rng.sample(g, rng.randrange(1, len(g) + 1))
        factors.append(dict(models.gauss_params(rng, len(s)), scope=list(s), kind="gauss"))
    rng.shuffle(factors)
    evidence, special = {}, {}
    free = [v for g in groups for v in g]
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        v = rng.choice(free)
        val = models.rnd6(rng.uniform(-2, 2))
        if v not in evidence and v not in special:
            (evidence if rng.random() < 0.5 else special)[v] = val
            if not allowed(factors, set(evidence) | set(special)):
                evidence.pop(v, None)
                special.pop(v, None)
    kinds = ["pass"] * 4 + rng.choice([[], ["burst"], ["hold", "late"], ["hold", "hold", "late", "burst", "recompute"],
                                       ["process"], ["process", "burst"]])
    mode = rng.choice(["fair", "fair", "both", "process"])
    return {"kind": "graph", "factors": factors, "evidence": evidence, "special": special, "mode": mode,
            "ops": nets.gen_ops(rng, rng.choice([0, 3, 8, 20]), kinds), "perms": [rng.randrange(1000) for _ in range(31)]}


def allowed(factors, obs):
    for f in factors:
        if f["kind"] == "gauss" and set(f["scope"]) <= obs:
            return False
        if f["kind"] == "nlg" and set(f["x"] + f["y"]) <= obs:
            return False
    return True


def gen_factor(rng):
    pool = models.names(rng, 8, rng.random() < 0.3)
    n, m = rng.choice([1, 2, 2, 3]), rng.choice([1, 2, 2])
    x, y = pool[:n], pool[n:n + m]
    n_mix = rng.choice([1, 1, 1, 2, 3])
    ops = []
    for _ in range(rng.choice([3, 5, 8])):
        kind = rng.choice(["absorb-x", "absorb-x", "absorb-y", "divide", "divide", "reduce", "copy", "marginal", "marginal", "getters",
                           "getters", "joint", "normalize", "potential", "equals", "mixture", "weight", "vacuous", "scribble"])
        op = {"op": kind, "r": [rng.randrange(1000) for _ in range(5)]}
        if kind in ("absorb-x", "absorb-y", "mixture"):
            side = x if kind == "absorb-x" or kind == "mixture" and rng.random() < 0.7 else y
            s = rng.sample(side, rng.choice([1, len(side), len(side)]))
            op["f"] = [dict(models.gauss_params(rng, len(s)), scope=s) for _ in range(1 if kind != "mixture" else rng.choice([1, 2]))]
        if kind in ("weight", "vacuous"):
            op["g"] = models.rnd6(rng.uniform(-3, 3))
        if kind in ("reduce", "potential"):
            op["v"] = [models.rnd6(rng.uniform(-2, 2)) for _ in range(n + m)]
        ops.append(op)
    parts = [nlg.params(rng, x, y) for _ in range(n_mix)]
    for p in parts:
        for name, side in (("conditioning_factor", x), ("conditional_update_factor", y)):
            if rng.random() < 0.25:
                s = rng.sample(side, rng.choice([1, len(side)]))
                p[name] = dict(models.gauss_params(rng, len(s)), scope=s)
    return {"kind": "factor", "nlg": parts, "wrap": n_mix > 1 or rng.random() < 0.15,
            "ops": ops}


def gen_split(rng):
    """A mixture that splits the (one dimensional) Gaussians that it absorbs."""
    pool = models.names(rng, 8, rng.random() < 0.3)
    n, m = rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 2])
    x, y = pool[:n], pool[n:n + m]
    parts, left = [], list(x)
    while left:
        k = min(len(left), rng.choice([1, 1, 2]))
        s, left = left[:k], left[k:]
        parts.append(dict(models.gauss_params(rng, len(s)), scope=s))
    rng.shuffle(parts)
    return {"kind": "split", "nlg": nlg.params(rng, rng.sample(x, n), y), "ops": parts, "mixture": rng.random() < 0.5,
            "queries": [rng.sample(x + y, rng.randrange(1, n + m + 1)) for _ in range(2)]}


# --- execution -----------------------------------------------------------------------------------------------------------

def execute(scn, ctx):
    with seams.set_order(scn["set_order"]):
        {"graph": run_graph, "factor": run_factor, "split": run_split}[scn["kind"]](scn, ctx)


def build(f):
    if f["kind"] == "nlg":
        return nlg.real(f)
    return models.real_factor(f, {"family": "gauss"})


def equivalent(scn):
    spec = {"family": "gauss", "factors": [], "evidence": dict(scn["evidence"]), "special": dict(scn["special"])}
    for f in scn["factors"]:
        spec["factors"].append(nlg.as_factor(f) if f["kind"] == "nlg" else f)
    return spec


def run_graph(scn, ctx):
    from veroku.cluster_graph import ClusterGraph
    spec = equivalent(scn)
    truth = models.Truth(spec)
    factors = [build(f) for f in scn["factors"]]
    cg = ClusterGraph(factors, **models.graph_args(spec))
    net = nets.Net(cg)
    if not net.acyclic():
        raise Skip("cluster graph has a cycle")
    ctx.count("runs: graph")
    ctx.nontrivial = len(net) > 0
    ctx.log(sorted(net.ends), scn["ops"])
    for op in scn["ops"]:
        nets.apply_op(net, op, ctx)
    queries = [[v for v in f["scope"] if v in truth.comp_of_var] for f in spec["factors"]] + [[v] for v in truth.unobserved]
    queries = [list(q) for q in dict.fromkeys(tuple(q) for q in queries if q)]
    if net.n_clusters == 1:
        cg.process_graph()
    if scn["mode"] in ("fair", "both"):
        for _ in range(2):   # towards the leaves, and back
            nets.fair_rounds(net, scn["perms"], ctx)
        judge_all(cg, truth, queries, ctx, 1e-6, False, "after fair rounds")
    if scn["mode"] in ("process", "both"):
        cg.process_graph(tol=1e-12, max_iter=50)
        judge_all(cg, truth, queries, ctx, 1e-6 if scn["mode"] == "both" else 1e-3, scn["mode"] != "both", "after process_graph")


def judge_all(cg, truth, queries, ctx, tol, approx, where):
    for q in queries:
        c01.judge(refs.read(cg.get_marginal(list(q))), truth.marginal(q), q, truth, ctx, tol, approx, where)


class Model:
    """Reference of a non-linear Gaussian: what it has absorbed and observed."""

    def __init__(self, p):
        self.p, self.on_x, self.on_y, self.obs, self.extra = p, [], [], {}, 0.0
        for name, on in (("conditioning_factor", self.on_x), ("conditional_update_factor", self.on_y)):
            if p.get(name):
                on.append(refs.Gauss(*(p[name][k] for k in ("scope", "K", "h", "g"))))

    def copy(self):
        m = Model(self.p)
        m.on_x, m.on_y, m.obs = list(self.on_x), list(self.on_y), dict(self.obs)
        m.extra = self.extra
        return m

    def complete(self):
        known = {v for g in self.on_x for v in g.vrs} | set(self.obs)
        return set(self.p["x"]) <= known

    def joint(self):
        joint = refs.product([nlg.ref(self.p)] + self.on_x + self.on_y).reduce(self.obs)
        return refs.Gauss(joint.vrs, joint.K, joint.h, joint.g + self.extra)

    def open(self):
        return [v for v in self.p["x"] + self.p["y"] if v not in self.obs]


def run_factor(scn, ctx):
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussianMixture
    owned = []        # what the factor has been made from, and belongs to the caller
    reals = [nlg.real(p, owned) for p in scn["nlg"]]
    ms = [Model(p) for p in scn["nlg"]]
    f = reals[0]
    wrapped = scn["wrap"]
    if wrapped:
        f = NonLinearGaussianMixture(reals, split_singles_before_absorb=False)
        owned.append(reals)
    ctx.count("runs: factor" + (" (mixture)" if wrapped else ""))
    ctx.log([o["op"] for o in scn["ops"]])
    ctx.nontrivial = bool(scn["ops"])
    absorbed = []     # (side, reference, real) that can be divided out again
    old = []          # (factor, its joint) that later operations must not change
    for op in scn["ops"]:
        ctx.step()
        ctx.count(f"op: {op['op']}")
        kind, r = op["op"], op["r"]
        done = all(m.complete() for m in ms)
        if kind in ("absorb-x", "absorb-y"):
            spec = op["f"][0]
            if set(spec["scope"]) & set(ms[0].obs):
                continue
            g, gr = models.real_factor(spec, {"family": "gauss"}), refs.Gauss(spec["scope"], spec["K"], spec["h"], spec["g"])
            keep(old, f, ms, wrapped)
            f = f.multiply(g)
            side = "on_x" if kind == "absorb-x" else "on_y"
            ms = [m.copy() for m in ms]
            for m in ms:
                getattr(m, side).append(gr)
            # it can be divided out again, or one that differs from it in weight only
            lift = r[3] % 7 - 3.0 if r[4] % 3 == 0 else 0.0
            spec = dict(spec, g=spec["g"] + lift)
            absorbed.append((side, gr, lift, models.real_factor(spec, {"family": "gauss"})))
            owned.append(g)
        elif kind == "mixture":
            if not wrapped and ms[0].obs or set(op["f"][0]["scope"]) & set(ms[0].obs) or len(ms) * len(op["f"]) > 6:
                continue
            from veroku.factors.experimental.gaussian_mixture import GaussianMixture
            g = GaussianMixture([models.real_factor(s, {"family": "gauss"}) for s in op["f"]])
            grs = [refs.Gauss(s["scope"], s["K"], s["h"], s["g"]) for s in op["f"]]
            keep(old, f, ms, wrapped)
            f = f.multiply(g)
            if not wrapped:
                if type(f).__name__ != "NonLinearGaussianMixture":
                    raise Violation("wrong-type", f"product of a non-linear Gaussian and a mixture is a {type(f).__name__}")
                f.split_singles_before_absorb = False
            wrapped = True
            new = []
            for m in ms:
                for gr in grs:
                    m2 = m.copy()
                    (m2.on_x if set(gr.vrs) <= set(m.p["x"]) else m2.on_y).append(gr)
                    new.append(m2)
            ms = new
            absorbed = []
            owned += g.components
        elif kind == "divide":
            if not absorbed or any(set(gr.vrs) & set(ms[0].obs) for _, gr, _, _ in absorbed):
                continue
            side, gr, lift, g = absorbed[r[0] % len(absorbed)]
            if side == "on_x" and not all(remains_proper(m, gr) for m in ms):
                continue
            absorbed.remove((side, gr, lift, g))
            keep(old, f, ms, wrapped)
            f = f.divide(g)
            ms = [m.copy() for m in ms]
            for m in ms:
                getattr(m, side).remove(gr)
                m.extra -= lift
        elif kind == "reduce":
            free = ms[0].open()
            if len(free) < 2:
                continue
            k = 1 + r[0] % (len(free) - 1)
            vrs = sorted(free, key=lambda v: (hash_of(v) * (r[1] + 1)) % 97)[:k]
            vals = [op["v"][i] for i in range(k)]
            obs = set(ms[0].obs) | set(vrs)
            if set(ms[0].p["y"]) <= obs and set(ms[0].p["x"]) <= obs:
                continue
            keep(old, f, ms, wrapped)
            f = f.reduce(vrs, vals)
            ms = [m.copy() for m in ms]
            for m in ms:
                m.obs.update(zip(vrs, vals))
        elif kind == "weight":
            if wrapped:
                continue
            f.add_log_weight(op["g"])   # in place
            ms = [m.copy() for m in ms]
            for m in ms:
                m.extra += op["g"]
        elif kind == "vacuous":
            side = [v for v in ms[0].p["x" if r[0] % 2 else "y"] if v not in ms[0].obs]
            if not side:
                continue
            from veroku.factors.gaussian import Gaussian
            g = Gaussian.make_vacuous(var_names=side[: 1 + r[1] % len(side)], g_val=op["g"])
            keep(old, f, ms, wrapped)
            f = f.multiply(g) if r[2] % 2 else f.divide(g)
            ms = [m.copy() for m in ms]
            for m in ms:
                m.extra += op["g"] if r[2] % 2 else -op["g"]
        elif kind == "scribble":
            for o in owned:
                scribble(o)
            owned = []
        elif kind == "copy":
            keep(old, f, ms, wrapped)
            f = f.copy() if r[0] % 2 else copy.deepcopy(f)
        elif done:
            query(f, ms, op, wrapped, ctx)
        if not all(proper(m) for m in ms):
            raise Skip("improper Gaussian")
    if all(m.complete() for m in ms):
        compare(f, ms, wrapped, "at the end")
        ctx.count("joints compared")
    for o, oms, w in old:
        if all(m.complete() for m in oms):
            compare(o, oms, w, "an operand, after later operations")
            ctx.count("operands compared")


def scribble(o):
    """A caller changing, in place, what it has given to a factor."""
    if isinstance(o, list):
        o[:] = [x.add_log_weight(3.0) or x if hasattr(x, "add_log_weight") else "changed" for x in o][::-1]
    elif isinstance(o, np.ndarray):
        o[...] = 7.0
    else:
        c09.scribble(o)


def run_split(scn, ctx):
    """Splitting preserves the weight, the mean and the covariance, so the affine image of independent splits has them too."""
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussianMixture
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture
    f = NonLinearGaussianMixture([nlg.real(scn["nlg"])])
    joint = nlg.ref(scn["nlg"])
    pieces = 1
    for spec in scn["ops"]:
        g = models.real_factor(spec, {"family": "gauss"})
        before = refs.read(g)
        f = f.multiply(GaussianMixture([g]) if scn["mixture"] else g)
        d = refs.diff(refs.read(g), before, 0.0)
        if d:
            raise Violation("operand-changed", f"by being absorbed: {d}")
        joint = refs.product([joint, refs.Gauss(spec["scope"], spec["K"], spec["h"], spec["g"])])
        pieces *= 3 if len(spec["scope"]) == 1 else 1
        ctx.step()
    ctx.count("runs: split")
    ctx.nontrivial = True
    ctx.log(pieces, [p["scope"] for p in scn["ops"]], scn["queries"])
    if np.linalg.eigvalsh(joint.K).min() < 1e-3:
        raise Skip("improper Gaussian")
    if {v for p in scn["ops"] for v in p["scope"]} != set(scn["nlg"]["x"]):
        raise Skip("incomplete")
    for q in [None] + scn["queries"]:
        got = mix.read(f.joint_distribution if q is None else f.marginalize(list(q)))
        want = joint if q is None else joint.marginalize(q)
        if set(got.vrs) != set(want.vrs):
            raise Violation("wrong-scope", f"marginal over {q} has scope {got.vrs}")
        if len(got.comps) != pieces:
            raise Violation("wrong-split", f"{len(got.comps)} components, expected {pieces}")
        want = want.reorder(got.vrs)
        (cov, mean), (wcov, wmean) = got.moments(), want.moments()
        tol = 1e-6 * (1 + np.abs(wcov).max() + np.abs(wmean).max() ** 2)
        for what, a, b in (("weight", got.logweight(), want.logweight()), ("mean", mean, wmean), ("covariance", cov, wcov)):
            if not np.abs(np.asarray(a) - np.asarray(b)).max() <= tol:
                raise Violation("split-moments", f"{what} over {got.vrs} of the mixture is {refs.fmt(np.asarray(a))}, expected "
                                                 f"{refs.fmt(np.asarray(b))}")
        ctx.count("split mixtures compared")


def hash_of(v):
    return sum(ord(c) * (i + 3) for i, c in enumerate(v))


def proper(m):
    """Whether what is known about the conditioning variables, and the joint, are proper distributions."""
    if not m.complete():
        return True
    gs = refs.product(m.on_x).reduce(m.obs) if m.on_x else None
    for g in [gs, m.joint()]:
        if g is not None and g.vrs and np.linalg.eigvalsh(g.K).min() < 1e-3:
            return False
    return True


def remains_proper(m, gr):
    """Whether the factor over conditioning variables is proper in all its variables after division by gr."""
    rest = [g for g in m.on_x if g is not gr]
    if {v for g in rest for v in g.vrs} != {v for g in m.on_x for v in g.vrs}:
        return False
    return np.linalg.eigvalsh(refs.product(rest).K).min() >= 1e-3


def keep(old, f, ms, wrapped):
    old.append((f, ms, wrapped))


def compare(f, ms, wrapped, where):
    want = mix.Mix([m.joint() for m in ms]) if wrapped else ms[0].joint()
    got = mix.read(f.joint_distribution)
    d = mix.diff(got, want, 1e-6 * (1 + want.scale()))
    if d:
        raise Violation("wrong-joint", f"{where}: {d}")


def query(f, ms, op, wrapped, ctx):
    kind, r = op["op"], op["r"]
    want = mix.Mix([m.joint() for m in ms]) if wrapped else ms[0].joint()
    free = ms[0].open()
    ctx.count("queries compared")
    if kind == "joint":
        return compare(f, ms, wrapped, "joint")
    if kind == "marginal":
        vrs = sorted(free, key=lambda v: (hash_of(v) * (r[1] + 1)) % 97)[: 1 + r[0] % len(free)]
        drop = [v for v in f.var_names if v not in vrs and v not in ms[0].obs]
        got = mix.read(f.marginalize(list(vrs), keep=True) if r[2] % 3 or ms[0].obs else f.marginalize(drop, keep=False))
        exp = want.marginalize(vrs)
        if sorted(got.vrs) != sorted(vrs):
            raise Violation("wrong-scope", f"marginal over {vrs} has scope {got.vrs}")
        d = mix.diff(got, exp, 1e-6 * (1 + exp.scale()))
        if d:
            raise Violation("wrong-marginal", f"over {vrs}: {d}")
        return None
    if wrapped:
        return None
    if kind == "getters":
        cov, mean = want.moments()
        vals = {"get_prec": want.K, "get_h": want.h, "get_g": want.g, "get_cov": cov, "get_mean": mean,
                "get_log_weight": want.logweight()}
        order = [v for v in f.var_names if v not in ms[0].obs]
        p = [want.vrs.index(v) for v in order]
        for k in r[:3]:
            name = sorted(vals)[k % len(vals)]
            exp = np.asarray(vals[name], dtype=float)
            exp = exp[np.ix_(p, p)] if exp.ndim == 2 else exp[p] if exp.ndim == 1 else exp
            got = np.asarray(getattr(f, name)(), dtype=float)
            if got.size != exp.size or not np.abs(got.reshape(exp.shape) - exp).max() <= 1e-6 * (1 + want.scale() + np.abs(exp).max()):
                raise Violation("wrong-parameter", f"{name} for {order}: {refs.fmt(got)}, expected {refs.fmt(exp)}")
    elif kind == "normalize":
        got, exp = refs.read(f.normalize()), want.normalize()
        d = refs.diff(got, exp, 1e-6 * (1 + exp.scale()))
        if d:
            raise Violation("wrong-normalized", d)
    elif kind == "equals":
        from veroku.factors.gaussian import Gaussian
        off = 0.5 if r[0] % 2 else 0.0
        other = Gaussian(prec=want.K, h_vec=(want.h + off).reshape(-1, 1), g_val=want.g, var_names=list(want.vrs))
        if bool(f.equals(other)) != (off == 0.0):
            raise Violation("wrong-equals", f"equals is {f.equals(other)} for h shifted by {off}")
    return None


# --- shrinking -------------------------------------------------------------------------------------------------------------

def shrink(scn):
    for ops in nets.shrink_list(scn["ops"]) if scn["kind"] != "split" else ():
        yield dict(scn, ops=ops)
    if scn["kind"] == "split":
        if scn["queries"]:
            yield dict(scn, queries=scn["queries"][1:])
        return
    if scn["kind"] == "factor":
        if len(scn["nlg"]) > 1:
            yield dict(scn, nlg=scn["nlg"][:1], wrap=False)
        return
    if scn["mode"] == "both":
        yield dict(scn, mode="fair")
        yield dict(scn, mode="process")
    for kind in ("evidence", "special"):
        for v in scn[kind]:
            yield dict(scn, **{kind: {k: x for k, x in scn[kind].items() if k != v}})
    used = lambda fs: {v for f in fs for v in (f["scope"] if f["kind"] == "gauss" else f["x"] + f["y"])}
    for i, f in enumerate(scn["factors"]):
        rest = scn["factors"][:i] + scn["factors"][i + 1:]
        if f["kind"] == "nlg" and set(f["y"]) & used(rest) or not rest:
            continue
        if f["kind"] == "gauss" and any(g["kind"] == "nlg" and set(f["scope"]) & set(g["x"]) for g in rest):
            continue
        u = used(rest)
        yield dict(scn, factors=rest, evidence={k: x for k, x in scn["evidence"].items() if k in u},
                   special={k: x for k, x in scn["special"].items() if k in u})
    if scn["perms"]:
        yield dict(scn, perms=[])
