"""
Random models: generation of JSON specifications, and construction of veroku and reference objects from them.

A specification is {"family", "cards", "factors": [{"scope", ...parameters}], "evidence", "special"}.
"""
import itertools
import json
import math
import zlib

import numpy as np

from .core import HarnessError, Skip
from . import refs

PLAIN = "abcdefghijklmnopqrstuvwxyz"
POOLS = [
    lambda r: r.choice(PLAIN) + (str(r.randrange(30)) if r.random() < 0.5 else ""),
    lambda r: "".join(r.choice(PLAIN.upper() + PLAIN) for _ in range(r.randrange(1, 6))),
    lambda r: f"x_{r.randrange(40)}",
    lambda r: f"node{r.randrange(12)}_{r.randrange(12)}",
    lambda r: r.choice(["x", "xx", "xxx", "xy", "y", "yx", "z", "zx", "c0", "c1", "c10", "v1", "v10", "v11"]) + r.choice(["", "", "0", "a"]),
    lambda r: r.choice(["p(a)", "x[0]", "x[1]", "a+b", "m.1", "q*", "t|1", "$s", "n^2", "a b", "h?", "x{1}"]) + r.choice(["", "", "_1", "2"]),
    lambda r: r.choice(["α", "β", "γ", "длина", "é", "変数"]) + str(r.randrange(9)),
]


def names(rng, n, exotic=True):
    pool = rng.choice(POOLS if exotic else POOLS[:5])
    out = []
    while len(out) < n:
        for _ in range(20):
            s = pool(rng)
            if s not in out:
                break
        else:
            s = f"w{len(out)}_{rng.randrange(1000)}"
            if s in out:
                continue
        out.append(s)
    return out


# --- structure -------------------------------------------------------------------------------------------------------

def tree_scopes(rng, n_clusters, max_scope=4, disconnected=0.15, groups=True):
    """
    Scopes of which every running intersection graph is a forest: a group of variables is shared by exactly two
    clusters, or a single variable by any number of them. Variables are integers.
    """
    scopes, fresh, single = [], [], []
    nvar = itertools.count()

    def new_vars(k):
        out = [next(nvar) for _ in range(k)]
        return out

    for i in range(n_clusters):
        if i == 0 or rng.random() < disconnected:
            own = new_vars(rng.randrange(1, max_scope + 1))
            scopes.append(list(own))
            fresh.append(set(own))
            single.append(set())
            continue
        p = rng.randrange(i)
        shared = []
        options = sorted(fresh[p])
        if groups and len(options) >= 2 and rng.random() < 0.5:
            shared = rng.sample(options, rng.randrange(2, min(3, len(options)) + 1))
            for v in shared:
                fresh[p].discard(v)   # closed: shared by exactly these two
            mine_single = set()
        else:
            cands = sorted(fresh[p] | single[p])
            if not cands:
                own = new_vars(rng.randrange(1, max_scope + 1))
                scopes.append(list(own))
                fresh.append(set(own))
                single.append(set())
                continue
            v = rng.choice(cands)
            fresh[p].discard(v)
            single[p].add(v)
            shared = [v]
            mine_single = {v}
        own = new_vars(rng.randrange(0 if rng.random() < 0.3 else 1, max(2, max_scope - len(shared) + 1)))
        scope = shared + own
        rng.shuffle(scope)
        scopes.append(scope)
        fresh.append(set(own))
        single.append(mine_single)
    return scopes, next(nvar)


def hub_scopes(rng, n_clusters):
    """A cluster with many neighbours, or a variable that all clusters share."""
    if rng.random() < 0.4:
        scopes = [[0, i + 1] if rng.random() < 0.8 else [0] for i in range(n_clusters)]
        n = n_clusters + 1
    else:
        k = rng.randrange(2, 5)
        scopes = [list(range(k))]
        n = k
        for _ in range(n_clusters - 1):
            own = rng.choice([0, 1, 1, 2])
            scopes.append([rng.randrange(k)] + list(range(n, n + own)))
            n += own
    for s in scopes:
        rng.shuffle(s)
    rng.shuffle(scopes)
    return scopes, n


def loopy_scopes(rng, n_clusters, n_vars, max_scope=3):
    scopes = []
    for _ in range(n_clusters):
        k = rng.randrange(1, min(max_scope, n_vars) + 1)
        scopes.append(rng.sample(range(n_vars), k))
    if rng.random() < 0.3 and n_clusters > 1:
        scopes[-1] = list(scopes[0])
        rng.shuffle(scopes[-1])
    return scopes, n_vars


# --- parameters ------------------------------------------------------------------------------------------------------

def rnd6(x):
    return float(f"{x:.6g}")


def table_params(rng, shape, hidden, zero_rate, spread):
    """Flat list of log values (None is log 0) which is not zero at the hidden assignment."""
    size = int(np.prod(shape)) if shape else 1
    flat = []
    hidden_flat = int(np.ravel_multi_index(hidden, shape)) if shape else 0
    for i in range(size):
        if zero_rate and i != hidden_flat and rng.random() < zero_rate:
            flat.append(None)
        else:
            flat.append(rnd6(rng.uniform(-spread, spread)))
    return flat


def gauss_params(rng, n, coupling=0.9, means=2.0):
    """Well conditioned positive definite canonical parameters."""
    A = [[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
    A = np.array(A)
    K = A @ A.T * coupling + np.eye(n) * rng.uniform(0.5, 2.0)
    h = [rnd6(rng.uniform(-means, means)) for _ in range(n)]
    K = [[rnd6(K[min(i, j), max(i, j)]) for j in range(n)] for i in range(n)]
    return {"K": K, "h": h, "g": rnd6(rng.uniform(-1.5, 1.5)), "form": rng.choice(["can", "can", "cov"])}


EXTREME_RATE = 0.12
DUPLICATE_RATE = 0.12
CONDITIONAL_RATE = 0.15


def conditional(rng, f, shape):
    """Makes a table a conditional distribution (often one that hardly depends on the condition): such factors send messages
    that say nothing, or hardly anything."""
    t = np.array([refs.NEG if x is None else x for x in f["logp"]]).reshape(shape) * rng.choice([1, 1, 1e-2, 1e-4])
    given = rng.randrange(len(shape) + 1)       # (len(shape): unconditional)
    axes = tuple(a for a in range(len(shape)) if a != given)
    if axes:
        top = np.max(t, axis=axes, keepdims=True)
        top = np.where(np.isfinite(top), top, 0.0)
        with np.errstate(divide="ignore"):
            total = top + np.log(np.sum(np.exp(t - top), axis=axes, keepdims=True))
        t = t - np.where(np.isfinite(total), total, 0.0)
    f["logp"] = [None if x == refs.NEG else float(f"{x:.12g}") for x in t.flatten()]


def make_extreme(rng, f, kind):
    shift = rng.choice([0.0, rnd6(rng.uniform(-900, 900)), rnd6(rng.uniform(-400, 400))]) if kind != "spikes" else 0.0
    if "g" in f:
        f["g"] = rnd6(f["g"] + shift)
        f["form"] = "can"
        return
    rate = rng.choice([0.2, 0.5]) if kind != "shift" else 0.0
    f["logp"] = [None if x is None else rnd6(x + shift - (rng.choice([50.0, 300.0, 800.0]) if rng.random() < rate else 0.0))
                 for x in f["logp"]]
    if "ctor" in f:
        f["ctor"] = "tensor"


def model(rng, structure, family, n_clusters, max_card=4, max_scope=4, zero_rate=0.0, spread=1.5, joint_limit=20000,
          evidence=True, special=True, exotic=True, n_vars=None, extra_subsets=True, disconnected=0.15,
          evidence_full=True, spikes=False, big=0.0, local=False):
    """
    A complete random specification. At rate `big` it is large in one way: many clusters, variables with many values,
    a factor over many variables, or a cluster with many neighbours (local: the joint distribution is never computed,
    so it may be of any size).
    """
    kind = rng.choice(["many", "many", "values", "scope", "hub", "hub"]) if big and rng.random() < big else None
    high = None
    if kind == "many":
        n_clusters = rng.randrange(9, 21 if local or family == "gauss" else 14) if family != "sparse" else rng.randrange(8, 13)
        n_vars = n_clusters + rng.randrange(3)
        max_scope, max_card = min(max_scope, 3 if local or family == "gauss" else 2), min(max_card, 3 if local else 2)
    if kind == "values":
        n_clusters, max_scope = min(n_clusters, 3), min(max_scope, 2)
        high = [rng.choice([5, 7, 9, 10, 11, 12, 16]) for _ in range(rng.choice([1, 1, 2]))]
    if kind and kind != "many":
        joint_limit = max(joint_limit, 1200)
    if kind and local:
        joint_limit = 1e30
    if kind == "hub":
        scopes, n = hub_scopes(rng, rng.randrange(7, 14) if family != "sparse" and (local or family == "gauss") else rng.randrange(5, 9))
    elif structure == "tree":
        scopes, n = tree_scopes(rng, n_clusters, max_scope, disconnected)
    else:
        scopes, n = loopy_scopes(rng, n_clusters, n_vars or max(3, n_clusters), max_scope)
    if kind == "scope":
        i = rng.randrange(len(scopes))
        extra = max(0, rng.randrange(5, 8 if family != "sparse" else 6) - len(scopes[i]))
        scopes[i] = scopes[i] + list(range(n, n + extra))
        rng.shuffle(scopes[i])
        n += extra
    if extra_subsets:
        for _ in range(rng.randrange(0, 3)):
            base = rng.choice(scopes)
            if structure == "tree" and len(base) == 1:
                continue
            k = rng.randrange(1, len(base) + 1) if structure != "tree" else rng.randrange(1, len(base))
            scopes.append(rng.sample(base, k))
    order = list(range(len(scopes)))
    rng.shuffle(order)
    scopes = [scopes[i] for i in order]
    used = sorted({v for s in scopes for v in s})
    nm = names(rng, len(used), exotic)
    name = dict(zip(used, nm))
    cards = {}
    hidden = {}
    for v in used:
        cards[name[v]] = rng.choice([1, 2, 2, 2, 3, 3, max_card]) if max_card > 1 else 1
        hidden[name[v]] = 0
    if family != "gauss":
        if kind == "scope":
            cards = {v: min(c, 2) for v, c in cards.items()}
        for c in high or []:
            cards[rng.choice(sorted(cards))] = c
        size = lambda: float(np.prod([float(c) for c in cards.values()]))
        while size() > joint_limit:
            v = rng.choice(sorted(cards, key=lambda x: (-cards[x], x))[: max(1, len(cards) // 2)])
            cards[v] = max(1, cards[v] - 1)
        for v in cards:
            hidden[v] = rng.randrange(cards[v])
    spec = {"family": family, "structure": structure, "factors": [], "evidence": {}, "special": {}}
    # values that cannot be represented outside of log space
    # (spikes: ratios so large that the information gain of a message need not tell whether it matters)
    extreme = rng.choice(["shift", "spikes", "both"] if spikes else ["shift"]) if rng.random() < EXTREME_RATE else None
    cpts = rng.random() < CONDITIONAL_RATE
    if family != "gauss":
        spec["cards"] = cards
    for s in scopes:
        scope = [name[v] for v in s]
        if family == "gauss":
            f = {"scope": scope}
            f.update(gauss_params(rng, len(scope)))
        else:
            shape = [cards[v] for v in scope]
            f = {"scope": scope, "logp": table_params(rng, shape, [hidden[v] for v in scope], zero_rate, spread)}
            if cpts:
                conditional(rng, f, shape)
            if family == "cat":
                f["ctor"] = rng.choice(["tensor", "tensor", "table"])
        if extreme:
            make_extreme(rng, f, extreme)
        spec["factors"].append(f)
    if rng.random() < DUPLICATE_RATE:
        duplicates(rng, spec)
    allv = sorted(cards)
    if evidence or special:
        k = min(len(allv) - 1, rng.choice([0, 0, 1, 1, 2, 3]))
        ev = rng.sample(allv, k) if k > 0 else []
        for v in ev:
            val = hidden[v] if family != "gauss" else rnd6(rng.uniform(-2, 2))
            if special and (not evidence or rng.random() < 0.4):
                spec["special"][v] = val
            elif evidence:
                spec["evidence"][v] = val
    if not usable(spec, evidence_full):
        spec["evidence"], spec["special"] = {}, {}
    return spec


def duplicates(rng, spec):
    """Two pieces of equal evidence count twice: the same factor again (an equal one, or the very same object)."""
    fs = spec["factors"]
    inside = [i for i, f in enumerate(fs) if any(set(f["scope"]) < set(g["scope"]) for g in fs)]
    i = rng.choice(inside) if inside and rng.random() < 0.7 else rng.randrange(len(fs))
    at = rng.choice([i + 1, rng.randrange(len(fs) + 1)])
    fs.insert(at, json.loads(json.dumps(fs[i])))
    if rng.random() < 0.5:
        spec["shared"] = True


def usable(spec, evidence_full=True):
    """Observing the complete scope of a Gaussian factor is not supported by veroku (documented limitation)."""
    obs = set(spec["evidence"]) | set(spec["special"])
    for f in spec["factors"]:
        if obs and set(f["scope"]) <= obs and (spec["family"] == "gauss" or not evidence_full):
            return False
    return True


# --- construction ----------------------------------------------------------------------------------------------------

def to_tensor(f, cards):
    shape = [cards[v] for v in f["scope"]]
    flat = np.array([refs.NEG if x is None else x for x in f["logp"]], dtype=float)
    return flat.reshape(shape)


def ref_factor(f, spec):
    if spec["family"] == "gauss":
        return refs.Gauss(f["scope"], f["K"], f["h"], f["g"])
    return refs.Table(f["scope"], to_tensor(f, spec["cards"]))


def real_factor(f, spec, owned=None):
    """The real factor. The arguments that it is made from (they belong to the caller) are added to owned."""
    def make(cls, **args):
        out = cls(**args)
        if owned is not None:
            owned.extend(args.values())
        return out
    fam = spec["family"]
    scope = list(f["scope"])
    if "nlg" in f:
        from . import nlg
        return nlg.real(f["nlg"], owned)
    if fam == "gauss":
        from veroku.factors.gaussian import Gaussian
        n = len(scope)
        if f["form"] == "can":
            return make(Gaussian, prec=np.array(f["K"]).reshape(n, n), h_vec=np.array(f["h"]).reshape(n, 1), g_val=f["g"],
                        var_names=scope)
        r = ref_factor(f, spec)
        cov, mean = r.moments()
        return make(Gaussian, cov=cov, mean=mean.reshape(n, 1), log_weight=float(r.logweight()), var_names=scope)
    cards = spec["cards"]
    t = to_tensor(f, cards)
    if fam == "cat":
        from veroku.factors.categorical import Categorical
        if f.get("ctor") == "table":
            probs = {a: float(np.exp(t[a])) for a in np.ndindex(t.shape) if t[a] != refs.NEG}
            return make(Categorical, var_names=scope, cardinalities=[cards[v] for v in scope], probs_table=probs)
        return make(Categorical, var_names=scope, log_probs_tensor=t)
    if fam == "sparse":
        from veroku.factors.sparse_categorical import SparseCategorical
        table = {tuple(int(i) for i in a): float(t[a]) for a in np.ndindex(t.shape) if t[a] != refs.NEG}
        return make(SparseCategorical, var_names=scope, cardinalities=[cards[v] for v in scope], log_probs_table=table)
    raise HarnessError(fam)


def scribble(o):
    """A caller changing, in place, an argument (list, dictionary or array) that it has passed."""
    if isinstance(o, list):
        o.reverse()
        o.append("changed")
    elif isinstance(o, dict):
        o.clear()
        o["changed"] = "changed"
    elif isinstance(o, np.ndarray) and o.ndim:
        o[...] = 0.987


def build_factors(spec):
    if not spec.get("shared"):
        return [real_factor(f, spec) for f in spec["factors"]]
    out = []
    for i, f in enumerate(spec["factors"]):    # equal factors are one object
        same = [out[j] for j in range(i) if spec["factors"][j] == f]
        out.append(same[0] if same else real_factor(f, spec))
    return out


def ref_factors(spec):
    return [ref_factor(f, spec) for f in spec["factors"]]


def accuracy(spec):
    return 1e-6 if spec.get("affine") else 1e-7 if spec["family"] == "gauss" else 1e-9


def observed(values):
    """The evidence as a caller would have it: the values of some variables come out of NumPy arrays."""
    array = lambda v: zlib.crc32(v.encode()) % 3 == 0
    return {v: np.array([x])[0] if array(v) else x for v, x in values.items()}


def graph_args(spec):
    kw = {"disable_tqdm": True}
    if spec["evidence"]:
        kw["evidence"] = observed(spec["evidence"])
    if spec["special"]:
        kw["special_evidence"] = observed(spec["special"])
    return kw


def build_graph(spec, factors=None):
    from veroku.cluster_graph import ClusterGraph
    return ClusterGraph(build_factors(spec) if factors is None else factors, **graph_args(spec))


def evidence_reduced(spec):
    return [f.reduce({v: x for v, x in spec["evidence"].items() if v in f.vrs}) for f in ref_factors(spec)]


class Truth:
    """Brute force answers of a specification."""

    def __init__(self, spec):
        self.spec = spec
        self.evidence_reduced = evidence_reduced(spec)
        special = spec["special"]
        self.reduced = [f.reduce({v: x for v, x in special.items() if v in f.vrs}) for f in self.evidence_reduced]
        self.joints = {}
        # connected components (over unobserved variables)
        parent = list(range(len(self.reduced)))

        def find(i):
            while parent[i] != i:
                i = parent[i]
            return i

        first = {}
        for i, f in enumerate(self.reduced):
            for v in f.vrs:
                if v in first:
                    parent[find(i)] = find(first[v])
                else:
                    first[v] = i
        comps = {}
        for i in range(len(self.reduced)):
            comps.setdefault(find(i), []).append(i)
        self.floating = any(not f.vrs for f in self.reduced)
        self.comp_of_var = {v: find(i) for v, i in first.items()}
        self.comps = comps
        self.unobserved = sorted(first)

    def joint(self):
        """Product of the evidence-reduced factors (special evidence not yet observed)."""
        return refs.product(self.evidence_reduced)

    def joint_size(self):
        if self.spec["family"] == "gauss":
            return 1
        obs = set(self.spec["evidence"])
        return int(np.prod([float(c) for v, c in self.spec["cards"].items() if v not in obs]))

    def possible(self):
        return all(math.isfinite(self.marginal_of([c], []).logweight()) for c in self.comps)

    def marginal(self, vrs):
        """Marginal within the component(s) of the variables, with the weight of those components."""
        comps = sorted({self.comp_of_var[v] for v in vrs})
        return self.marginal_of(comps, list(vrs))

    def marginal_of(self, comps, vrs):
        """Brute force; where the joint distribution would be too large a table, one variable after the other."""
        fs = [self.reduced[i] for c in comps for i in self.comps[c]]
        if isinstance(fs[0], refs.Gauss):
            key = tuple(comps)
            if key not in self.joints:
                self.joints[key] = refs.product(fs)
            return self.joints[key].marginalize(vrs)
        cards = {v: f.card(v) for f in fs for v in f.vrs}

        def size(names):
            return float(np.prod([float(cards[v]) for v in names])) if names else 1.0

        if size(cards) <= 40000 and len(cards) <= 24:
            key = tuple(comps)
            if key not in self.joints:
                self.joints[key] = refs.product(fs)
            return self.joints[key].marginalize(vrs)
        left = set(cards) - set(vrs)
        while left:
            scope = {v: sorted(set().union(*(f.vrs for f in fs if v in f.vrs))) for v in left}
            v = min(sorted(left), key=lambda v: size(scope[v]))
            if size(scope[v]) > 300000:
                raise Skip("reference too large")
            mine = [f for f in fs if v in f.vrs]
            fs = [f for f in fs if v not in f.vrs]
            fs.append(refs.product(mine).marginalize([x for x in scope[v] if x != v]))
            left.discard(v)
        return refs.product(fs).marginalize(vrs)

    def queries(self):
        """Sets of variables that some cluster is bound to contain."""
        return [f.scope for f in self.reduced if f.vrs]


# --- shrinking -------------------------------------------------------------------------------------------------------

def shrink_spec(spec):
    """Smaller specifications: fewer factors, fewer observations, smaller domains, simpler numbers."""
    n = len(spec["factors"])
    for i in range(n):
        if n > 1 and not (spec.get("affine") and needed(spec["factors"], i)):
            s = dict(spec, factors=spec["factors"][:i] + spec["factors"][i + 1:])
            yield prune(s)
    for kind in ("evidence", "special"):
        for v in spec[kind]:
            yield prune(dict(spec, **{kind: {k: x for k, x in spec[kind].items() if k != v}}))
    if spec["family"] != "gauss":
        for v in sorted(spec["cards"]):
            c = spec["cards"][v]
            if c > 1 and v not in spec["evidence"] and v not in spec["special"]:
                yield set_card(spec, v, c - 1)
        for v in sorted(spec["cards"]):
            for i, f in enumerate(spec["factors"]):
                if v in f["scope"] and len(f["scope"]) > 1:
                    t = refs.Table(f["scope"], to_tensor(f, spec["cards"])).reduce({v: 0})
                    nf = dict(f, scope=t.vrs, logp=[None if x == refs.NEG else float(x) for x in t.logp.ravel()])
                    yield prune(dict(spec, factors=spec["factors"][:i] + [nf] + spec["factors"][i + 1:]))
        for i, f in enumerate(spec["factors"]):
            simple = [x if x is None else float(round(x)) for x in f["logp"]]
            if simple != f["logp"]:
                yield dict(spec, factors=spec["factors"][:i] + [dict(f, logp=simple)] + spec["factors"][i + 1:])
    short = {}
    allv = sorted({v for f in spec["factors"] for v in f["scope"]})
    for i, v in enumerate(allv):
        short[v] = PLAIN[i] if i < 26 else f"v{i}"
    if any(k != x for k, x in short.items()):
        yield rename(spec, short)


def needed(factors, i):
    """Whether an affine model without this factor would be improper."""
    f, rest = factors[i], factors[:i] + factors[i + 1:]
    if "nlg" in f:
        return bool(set(f["nlg"]["y"]) & {v for g in rest for v in g["scope"]})
    return any("nlg" in g and set(f["scope"]) & set(g["nlg"]["x"]) for g in rest)


def prune(spec):
    used = {v for f in spec["factors"] for v in f["scope"]}
    out = dict(spec)
    out["evidence"] = {k: v for k, v in spec["evidence"].items() if k in used}
    out["special"] = {k: v for k, v in spec["special"].items() if k in used}
    if "cards" in spec:
        out["cards"] = {k: v for k, v in spec["cards"].items() if k in used}
    return out


def set_card(spec, v, c):
    out = dict(spec, cards=dict(spec["cards"], **{v: c}), factors=[])
    for f in spec["factors"]:
        if v in f["scope"]:
            t = to_tensor(f, spec["cards"])
            t = np.take(t, range(c), axis=f["scope"].index(v))
            f = dict(f, logp=[None if x == refs.NEG else float(x) for x in t.ravel()])
        out["factors"].append(f)
    return out


def rename(spec, mapping):
    out = dict(spec, factors=[dict(f, scope=[mapping[v] for v in f["scope"]]) for f in spec["factors"]])
    for f in out["factors"]:
        if "nlg" in f:
            f["nlg"] = dict(f["nlg"], **{side: [mapping[v] for v in f["nlg"][side]] for side in ("x", "y")})
    for kind in ("evidence", "special"):
        out[kind] = {mapping[k]: v for k, v in spec[kind].items()}
    if "cards" in spec:
        out["cards"] = {mapping[k]: v for k, v in spec["cards"].items()}
    return out
