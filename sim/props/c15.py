"""C15: templates, and dynamic models (linear systems, hidden Markov models, non-linear chains) built from them."""
import numpy as np

from .. import models, refs, nlg, seams, monitor, net as nets
from ..core import Violation, Skip, HarnessError
from . import c01, c08

ID = "C15"
PLAN = {"quick": 3000, "thorough": 300000}
RULE = ("one evaluation = one simulated run: factors for every step of a random chain or tree of states are made from a few "
        "templates, in random order, by one thread or several under a seeded schedule, with failing and interrupted calls and "
        "factors that are modified in place in between; every factor is compared with the template's definition; the network "
        "of these factors is then run under a seeded message schedule and all marginals are compared with exact elimination. "
        "Distinct = distinct digest of structure, schedule and results; non-trivial = a message was delivered.")
ASSUMPTIONS = ["reference in sim/refs.py is right",
               "linear Gaussian transforms are square and well conditioned or have more outputs than inputs (otherwise messages "
               "cannot be computed before the other side is informed)"]
COMPONENTS = {"real": ["CategoricalTemplate", "SparseCategoricalTemplate", "GaussianTemplate", "NonLinearGaussianTemplate",
                       "make_linear_gaussian_cpd_template", "ClusterGraph", "factors", "Python threads"],
              "stub": ["iteration order of sets", "message scheduler (in the scheduled phase)", "thread scheduling decisions"]}


# --- generation --------------------------------------------------------------------------------------------------------

def gen(rng, tier):
    fam = rng.choice(["gauss", "gauss", "gauss", "cat", "cat", "sparse", "nlg"])
    d = rng.choice([1, 1, 2, 2, 3]) if fam in ("gauss", "nlg") else rng.choice([1, 1, 2])
    n = rng.choice([2, 3, 3, 4, 5, 6]) if rng.random() < 0.93 else rng.choice([12, 20])
    stem = models.names(rng, 2 * d + 2, False)
    state, obs = stem[:d], stem[d:2 * d + (1 if rng.random() < 0.25 else 0)]
    if fam in ("cat", "sparse"):
        obs = obs[:rng.choice([1, len(obs)])]
    cards = {v: rng.choice([1, 2, 2, 3]) for v in state + obs} if fam in ("cat", "sparse") else None
    chain = rng.random() < 0.7
    parent = [None] + [i - 1 if chain else rng.randrange(i) for i in range(1, n)]
    kinds = [{"role": "step"} for _ in range(rng.choice([1, 1, 2]))] + [{"role": "obs"} for _ in range(rng.choice([0, 1, 1]))]
    for t in kinds:
        x = [s + "_{p}" for s in state]
        y = [s + "_{c}" for s in state] if t["role"] == "step" else [s + "_{p}" for s in obs]
        t.update(x=x, y=y, **template_params(rng, fam, len(x), len(y), cards and [cards[v] for v in state],
                                             cards and [cards[v] for v in (state if t["role"] == "step" else obs)]))
    steps = [k for k, t in enumerate(kinds) if t["role"] == "step"]
    watch = [k for k, t in enumerate(kinds) if t["role"] == "obs"]
    makes = [{"t": rng.choice(steps), "fmt": {"p": parent[i], "c": i}} for i in range(1, n)]
    for i in range(n):
        if watch and rng.random() < 0.7:
            makes.append({"t": rng.choice(watch), "fmt": {"p": i, "c": "none"}})
    for m in makes:
        m["how"] = rng.choice(["format", "format", "names"])
    rng.shuffle(makes)
    prior_scope = [s + "_0" for s in state]
    prior = {"scope": rng.sample(prior_scope, d)}
    scn = {"family": fam, "templates": kinds, "makes": makes, "n": n, "state": state, "obs": obs, "cards": cards, "parent": parent}
    if fam in ("gauss", "nlg"):
        prior.update(models.gauss_params(rng, d))
    else:
        shape = [cards[v[:-2]] for v in prior["scope"]]
        prior["logp"] = [models.rnd6(rng.uniform(-2, 0)) for _ in range(int(np.prod(shape)))]
    scn["prior"] = prior
    scn["evidence"], scn["special"] = gen_evidence(rng, scn)
    scn["threads"] = rng.choice([0, 0, 2, 3])
    scn["schedule"] = c08.threads.gen_schedule(rng, scn["threads"]) if scn["threads"] else []
    if rng.random() < 0.5:
        scn["rare"] = rng.choice([2, 5, 20])
    scn["noise"] = [[rng.choice(["fail", "modify", "modify", "interrupt", "formattable"]), rng.randrange(1000), rng.randrange(1000)]
                    for _ in range(rng.choice([0, 2, 5]))]
    modes = ["pass"] * 4 + rng.choice([[], ["burst"], ["hold", "late"], ["process"]])
    scn["ops"] = nets.gen_ops(rng, rng.choice([0, 3, 10]), modes)
    scn["mode"] = rng.choice(["fair", "both", "process"]) if n < 10 else "process"
    scn["perms"] = [rng.randrange(1000) for _ in range(31)]
    scn["set_order"] = rng.randrange(10 ** 6)
    return scn


def template_params(rng, fam, nx, ny, xc, yc):
    if fam == "gauss":
        if rng.random() < 0.2:
            g = models.gauss_params(rng, nx + ny)
            return {"kind": "potential", "K": g["K"], "h": g["h"], "g": g["g"]}
        return {"kind": "cpd", "A": transform(rng, ny, nx), "Q": noise(rng, ny)}
    if fam == "nlg":
        return {"kind": "nlg", "A": [[models.rnd6(rng.uniform(-1.2, 1.2)) for _ in range(nx)] for _ in range(ny)], "Q": noise(rng, ny),
                "b": [models.rnd6(rng.uniform(-1, 1)) for _ in range(ny)]}
    shape = list(xc) + list(yc)
    zero = rng.choice([0, 0, 0.3, 0.5])
    rows = []
    for _ in range(int(np.prod(xc))):
        row = [0.0 if rng.random() < zero else models.rnd6(rng.uniform(0.05, 1)) for _ in range(int(np.prod(yc)))]
        if not any(row):
            row[rng.randrange(len(row))] = 1.0
        rows += row
    return {"kind": "table", "shape": shape, "probs": rows, "ctor": rng.choice(["table", "table", "tensor"]) if fam == "cat" else "table"}


def transform(rng, m, n):
    while True:
        A = np.array([[rng.uniform(-1, 1) for _ in range(n)] for _ in range(m)])
        s = np.linalg.svd(A, compute_uv=False)
        if len(s) == n and s[-1] > 0.25 and s[0] < 1.4:
            return [[models.rnd6(x) for x in row] for row in A]


def noise(rng, n):
    L = np.array([[rng.uniform(-0.6, 0.6) for _ in range(n)] for _ in range(n)])
    Q = L @ L.T + np.eye(n) * rng.uniform(0.3, 1.5)
    return [[models.rnd6(Q[min(i, j), max(i, j)]) for j in range(n)] for i in range(n)]


def names_of(t, fmt):
    return [s.format(**fmt) for s in t["x"]], [s.format(**fmt) for s in t["y"]]


def gen_evidence(rng, scn):
    """Evidence that is possible (discrete: along a sampled path), and does not cover a complete Gaussian factor."""
    fam, ts = scn["family"], scn["templates"]
    value = {}
    if fam in ("cat", "sparse"):
        card = lambda v: scn["cards"][v[: v.rindex("_")]]
        for v in scn["prior"]["scope"]:
            value[v] = rng.randrange(card(v))
        todo = sorted(scn["makes"], key=lambda m: (ts[m["t"]]["role"] == "obs", m["fmt"]["c"] if m["fmt"]["c"] != "none" else -1))
        for m in todo:
            t = ts[m["t"]]
            x, y = names_of(t, m["fmt"])
            p = np.array(t["probs"]).reshape(t["shape"])[tuple(value[v] for v in x)]
            options = [a for a in np.ndindex(p.shape) if p[a] > 0]
            value.update(zip(y, (int(i) for i in rng.choice(options))))
    else:
        for v in sorted(set(scn["prior"]["scope"]) | {v for m in scn["makes"] for side in names_of(ts[m["t"]], m["fmt"]) for v in side}):
            value[v] = models.rnd6(rng.uniform(-2, 2))
    evidence, special = {}, {}
    obs_vars = sorted({v for m in scn["makes"] if ts[m["t"]]["role"] == "obs" for v in names_of(ts[m["t"]], m["fmt"])[1]})
    others = sorted(set(value) - set(obs_vars))
    where = rng.choice([evidence, special, None])
    for v in obs_vars:
        if rng.random() < 0.8:
            (where if where is not None else rng.choice([evidence, special]))[v] = value[v]
    for v in rng.sample(others, min(len(others), rng.choice([0, 0, 1, 2]))):
        rng.choice([evidence, special])[v] = value[v]
    scopes = [scn["prior"]["scope"]] + [sum(names_of(ts[m["t"]], m["fmt"]), []) for m in scn["makes"]]
    for d in (evidence, special):
        for s in scopes:
            if set(s) <= set(evidence) | set(special) and (fam in ("gauss", "nlg") or set(s) == {v for c in scopes for v in c}):
                d.pop(s[0], None)
    if any(set(s) <= set(evidence) | set(special) for s in scopes) and fam in ("gauss", "nlg"):
        return {}, {}
    return evidence, special


# --- definitions -------------------------------------------------------------------------------------------------------------

def make_template(t, fam, cards):
    """The real template. The arguments that it is made from belong to the caller, who changes them afterwards."""
    owned = []

    def lend(value):
        owned.append(value)
        return value
    out = _make_template(t, fam, lend)
    for o in owned:
        models.scribble(o)
    return out


def _make_template(t, fam, lend):
    if t["kind"] == "table":
        probs = np.array(t["probs"]).reshape(t["shape"])
        table = {tuple(int(i) for i in a): float(probs[a]) for a in np.ndindex(probs.shape) if probs[a] > 0}
        if fam == "sparse":
            from veroku.factors.sparse_categorical import SparseCategoricalTemplate
            return SparseCategoricalTemplate(lend(table), lend(list(t["shape"])), var_templates=lend(t["x"] + t["y"]))
        from veroku.factors.categorical import CategoricalTemplate
        if t["ctor"] == "tensor":
            with np.errstate(divide="ignore"):
                return CategoricalTemplate(var_templates=lend(t["x"] + t["y"]), log_probs_tensor=lend(np.log(probs)))
        return CategoricalTemplate(var_templates=lend(t["x"] + t["y"]), cardinalities=lend(list(t["shape"])), probs_table=lend(table))
    if t["kind"] == "nlg":
        from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussianTemplate
        A, b = np.array(t["A"]), np.array(t["b"]).reshape(-1, 1)

        def transition(points, var_names):
            order = []
            for stem in t["x"]:
                hits = [i for i, v in enumerate(var_names) if v.rsplit("_", 1)[0] == stem.rsplit("_", 1)[0]]
                if len(hits) != 1:
                    raise nlg.TransformMisused(f"{var_names} for {t['x']}")
                order.append(hits[0])
            return A @ points[order] + b
        return NonLinearGaussianTemplate(lend(list(t["x"])), lend(list(t["y"])), transition, lend(np.array(t["Q"])))
    from veroku.factors.gaussian import GaussianTemplate, make_linear_gaussian_cpd_template
    if t["kind"] == "cpd":
        return make_linear_gaussian_cpd_template(lend(np.array(t["A"])), lend(np.array(t["Q"])), lend(list(t["x"])), lend(list(t["y"])))
    return GaussianTemplate(lend({"prec": lend(np.array(t["K"])), "h": lend(np.array(t["h"]).reshape(-1, 1)), "g": t["g"]}),
                            lend(t["x"] + t["y"]))


def definition(t, fmt):
    """The reference distribution of the template over the formatted variables."""
    x, y = names_of(t, fmt)
    if t["kind"] == "table":
        with np.errstate(divide="ignore"):
            return refs.Table(x + y, np.log(np.array(t["probs"]).reshape(t["shape"])))
    if t["kind"] == "potential":
        return refs.Gauss(x + y, t["K"], t["h"], t["g"])
    return nlg.ref({"x": x, "y": y, "A": t["A"], "b": t.get("b", [0.0] * len(y)), "Q": t["Q"], "logw": 0.0})


class Truth:
    """Exact marginals by eliminating the other variables one at a time."""

    def __init__(self, factors, obs):
        self.factors = [f.reduce({v: obs[v] for v in f.vrs if v in obs}) for f in factors]
        self.floating = any(not f.vrs for f in self.factors)
        parent = {}

        def find(v):
            while parent[v] != v:
                v = parent[v]
            return v
        for f in self.factors:
            for v in f.vrs:
                parent.setdefault(v, v)
                parent[find(v)] = find(f.vrs[0])
        self.comp_of_var = {v: find(v) for v in parent}
        self.unobserved = sorted(parent)

    def marginal(self, vrs):
        comps = {self.comp_of_var[v] for v in vrs}
        fs = [f for f in self.factors if f.vrs and self.comp_of_var[f.vrs[0]] in comps]
        if isinstance(fs[0], refs.Gauss):
            return refs.product(fs).marginalize(vrs)
        rest = {v for f in fs for v in f.vrs} - set(vrs)
        while rest:
            def cost(v):
                return len({u for f in fs if v in f.vrs for u in f.vrs})
            v = min(sorted(rest), key=cost)
            hit = refs.product([f for f in fs if v in f.vrs])
            fs = [f for f in fs if v not in f.vrs] + [hit.marginalize([u for u in hit.vrs if u != v])]
            rest.discard(v)
        fs = [f for f in fs if f.vrs] + [f for f in fs if not f.vrs]
        return refs.product(fs).marginalize(vrs)


# --- execution -----------------------------------------------------------------------------------------------------------

def execute(scn, ctx):
    with seams.set_order(scn["set_order"]):
        run(scn, ctx)


def make(template, spec, m):
    x, y = names_of(spec, m["fmt"])
    if m["how"] == "names":
        owned = [x, y] if spec["kind"] == "nlg" else [x + y]
        args = dict(zip(["conditioning_vars", "conditional_vars"] if spec["kind"] == "nlg" else ["var_names"], owned))
    else:
        owned = [dict(m["fmt"])]
        args = {"format_dict": owned[0]}
    before = [o.copy() for o in owned]
    out = template.make_factor(**args)
    if owned != before:
        raise Violation("argument-changed", f"make_factor changed its arguments {before} to {owned}")
    for o in owned:     # the arguments belong to the caller
        models.scribble(o)
    return out


def verify(f, spec, m, where):
    x, y = names_of(spec, m["fmt"])
    want = definition(spec, m["fmt"])
    if list(f.var_names) != x + y:
        raise Violation("wrong-variables", f"{where}: made factor has variables {f.var_names}, expected {x + y}")
    if spec["kind"] == "nlg":
        if (list(f.conditioning_vars), list(f.conditional_vars)) != (x, y):
            raise Violation("wrong-variables", f"{where}: {f.conditioning_vars} -> {f.conditional_vars}, expected {x} -> {y}")
        if np.abs(np.asarray(f.noise_cov) - np.array(spec["Q"])).max() > 1e-12 or f.log_weight != 0.0:
            raise Violation("wrong-factor", f"{where}: noise covariance {refs.fmt(f.noise_cov)}, weight {f.log_weight}")
        if f.conditioning_factor is not None or f.conditional_update_factor is not None or f.observed_evidence:
            raise Violation("wrong-factor", f"{where}: a new factor has already absorbed something")
        return
    got = refs.read(f)
    d = refs.diff(got, want, 1e-8 * (1 + want.scale()))
    if d:
        raise Violation("wrong-factor", f"{where}: {d}")


def modify(f):
    """What a user may do to a factor of his own: change its parameters in place."""
    name = type(f).__name__
    if name == "Categorical":
        f.log_probs_tensor[...] = -1.25
        f.var_cards.clear()
    elif name == "SparseCategorical":
        for a in list(f.log_probs_table):
            f.log_probs_table[a] = -1.25
        f.log_probs_table.clear()
    elif name == "Gaussian":
        f.prec *= 2.0
        f.h_vec += 3.0
        f._add_log_weight(1.0)
    else:
        f.noise_cov *= 2.0
        f.add_log_weight(1.0)
        f.conditioning_vars.append("extra")
        f.conditional_vars.reverse()


def run(scn, ctx):
    from veroku.cluster_graph import ClusterGraph
    fam, specs = scn["family"], scn["templates"]
    templates = [make_template(t, fam, scn["cards"]) for t in specs]
    ctx.count(f"runs: {fam}")
    ctx.nontrivial = False
    made = [None] * len(scn["makes"])

    def job(part):
        def work():
            return [(i, make(templates[scn["makes"][i]["t"]], specs[scn["makes"][i]["t"]], scn["makes"][i])) for i in part]
        return work
    noises = list(scn["noise"])
    if scn["threads"]:
        parts = [range(k, len(made), scn["threads"]) for k in range(scn["threads"])]
        for out in c08.concurrently([job(p) for p in parts], scn, ctx):
            for i, f in out:
                made[i] = f
        ctx.count("factors made concurrently", len(made))
    for i, m in enumerate(scn["makes"]):
        if noises:
            disturb(noises.pop(), scn, templates, ctx)
        if made[i] is None:
            made[i] = make(templates[m["t"]], specs[m["t"]], m)
    for noise_ in noises:
        disturb(noise_, scn, templates, ctx)
    for f, m in zip(made, scn["makes"]):
        ctx.step()
        verify(f, specs[m["t"]], m, f"template {m['t']} for {m['fmt']}")
        ctx.count("factors compared with their template")

    prior = scn["prior"]
    truth = Truth([prior_ref(scn)] + [definition(specs[m["t"]], m["fmt"]) for m in scn["makes"]],
                  dict(scn["evidence"], **scn["special"]))
    kw = {"disable_tqdm": True}
    if scn["evidence"]:
        kw["evidence"] = dict(scn["evidence"])
    if scn["special"]:
        kw["special_evidence"] = dict(scn["special"])
    cg = ClusterGraph([prior_real(scn)] + made, **kw)
    net = nets.Net(cg)
    if not net.acyclic():
        ctx.count("networks with a cycle (marginals not compared)")
    else:
        infer(scn, cg, net, truth, prior, ctx)
    for t, spec in zip(templates, specs):
        fmt = {"p": "last", "c": "next"}
        verify(make(t, spec, {"fmt": fmt, "how": "format"}), spec, {"fmt": fmt}, "template at the end")
    for f, m in zip(made, scn["makes"]):
        if specs[m["t"]]["kind"] != "nlg":
            verify(f, specs[m["t"]], m, "after inference")


def prior_ref(scn):
    p = scn["prior"]
    if "K" in p:
        return refs.Gauss(p["scope"], p["K"], p["h"], p["g"])
    return refs.Table(p["scope"], np.array(p["logp"]).reshape([scn["cards"][v[:-2]] for v in p["scope"]]))


def prior_real(scn):
    fam = {"nlg": "gauss"}.get(scn["family"], scn["family"])
    spec = {"family": fam, "cards": {v: scn["cards"][v[:-2]] for v in scn["prior"]["scope"]} if scn["cards"] else None}
    return models.real_factor(scn["prior"], spec)


def disturb(noise_, scn, templates, ctx):
    kind, r, k = noise_
    m = scn["makes"][r % len(scn["makes"])]
    t, spec = templates[m["t"]], scn["templates"][m["t"]]
    if kind == "modify":
        modify(make(t, spec, m))
        ctx.count("fault: made factor modified in place")
    elif kind == "fail":
        try:
            t.make_factor(format_dict={"q": 1})
        except KeyError:
            ctx.count("fault: format values missing")
        else:
            raise Violation("no-error", "make_factor without the required format values did not fail")
    elif kind == "formattable":
        if not t.formattable(dict(m["fmt"])) or t.formattable({"q": 1}):
            raise Violation("wrong-formattable", f"formattable({m['fmt']}), formattable({{'q': 1}})")
    elif kind == "interrupt":
        meter = monitor.Interrupter()
        with monitor.Instants(meter):
            make(t, spec, m)
        if not meter.count:
            return
        exc = KeyboardInterrupt("injected by the simulator")
        trap = monitor.Interrupter(k % meter.count, exc)
        try:
            with monitor.Instants(trap):
                make(t, spec, m)
        except KeyboardInterrupt:
            ctx.count("fault: interrupt in make_factor")
        else:
            raise Violation("interrupt-swallowed", f"at {trap.fired}")


def infer(scn, cg, net, truth, prior, ctx):
    gauss = scn["family"] in ("gauss", "nlg")
    ctx.nontrivial = len(net) > 0
    ctx.log(sorted(net.ends), scn["ops"])
    ctx.count("networks run")
    if scn["n"] > 10:
        ctx.count("networks run: long chains")
    for op in scn["ops"]:
        nets.apply_op(net, op, ctx)
    if net.n_clusters == 1:
        cg.process_graph()
    fair = scn["mode"] in ("fair", "both")
    if fair:
        for _ in range(2 if scn["family"] == "nlg" else 1):
            nets.fair_rounds(net, scn["perms"], ctx)
        judge_all(scn, cg, truth, ctx, 1e-6 if gauss else 1e-9, False, "after fair rounds")
    if scn["mode"] in ("process", "both"):
        cg.process_graph(tol=1e-12, max_iter=net.n_clusters + 30)
        ctx.count("process_graph to convergence")
        judge_all(scn, cg, truth, ctx, (1e-6 if gauss else 1e-8) if fair else 1e-3, not fair, "after process_graph")


def judge_all(scn, cg, truth, ctx, tol, approx, where):
    queries = [[s + f"_{i}" for s in scn["state"]] for i in range(scn["n"])]
    for m in scn["makes"]:
        x, y = names_of(scn["templates"][m["t"]], m["fmt"])
        queries += [x + y, y]
    done = set()
    for q in queries:
        q = [v for v in q if v in truth.comp_of_var]
        if q and tuple(q) not in done:
            done.add(tuple(q))
            c01.judge(refs.read(cg.get_marginal(list(q))), truth.marginal(q), q, truth, ctx, tol, approx, where)


# --- shrinking -------------------------------------------------------------------------------------------------------------

def shrink(scn):
    for key in ("ops", "noise", "schedule"):
        for items in nets.shrink_list(scn[key]):
            yield dict(scn, **{key: items})
    if scn["threads"]:
        yield dict(scn, threads=0, schedule=[])
    if scn["mode"] == "both":
        yield dict(scn, mode="fair")
        yield dict(scn, mode="process")
    for kind in ("evidence", "special"):
        for v in scn[kind]:
            yield dict(scn, **{kind: {k: x for k, x in scn[kind].items() if k != v}})
    for i, m in enumerate(scn["makes"]):
        spec = scn["templates"][m["t"]]
        _, y = names_of(spec, m["fmt"])
        if spec["role"] == "obs" or m["fmt"]["c"] == scn["n"] - 1 and not any(
                o["fmt"]["p"] == m["fmt"]["c"] for o in scn["makes"]):
            rest = scn["makes"][:i] + scn["makes"][i + 1:]
            if not rest:
                continue
            out = dict(scn, makes=rest, n=scn["n"] - (spec["role"] == "step"))
            for kind in ("evidence", "special"):
                out[kind] = {k: v for k, v in scn[kind].items() if k not in y}
            yield out
    if scn["perms"]:
        yield dict(scn, perms=[])
