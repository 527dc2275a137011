"""C07: histories of factor operations, with failing and interrupted calls, against the reference models."""
import contextlib
import copy
import io

import numpy as np

from .. import models, refs, mix, seams, monitor, net as nets
from ..core import Violation, Skip, HarnessError

ID = "C07"
PLAN = {"quick": 20000, "thorough": 500000}
RULE = ("one evaluation = one simulated history of up to 16 operations over a pool of live factors (dense, sparse, Gaussian or "
        "Gaussian mixture); operations also fail (inconsistent operands), are interrupted at a chosen instant, or are followed "
        "by in-place changes of a factor by its owner. After every step the result is compared with the reference model and "
        "every live factor with the value and variable order it had. Distinct = distinct digest of history and values; "
        "non-trivial = at least two successful operations.")
ASSUMPTIONS = ["reference models in sim/refs.py and sim/mix.py are right",
               "divisions by zero (x/0) and operations on improper Gaussians that need an inverse are not generated",
               "quotients 0/0 are undefined with divide (cancel defines them)"]
COMPONENTS = {"real": ["Categorical", "SparseCategorical", "Gaussian", "GaussianMixture", "_factor_utils"],
              "stub": ["source of asynchronous exceptions (sys.monitoring callbacks)", "iteration order of sets"]}
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}

BINARY = ["multiply", "mul", "absorb", "divide", "cancel"]
UNARY = ["marginalize", "marginalize", "reduce", "observe", "normalize", "reorder", "copy"]
ASK = ["equals", "eq", "kl", "vacuous", "argmax", "potential", "text", "moments", "joint"]
BAD = ["bad-cards", "bad-type", "bad-reduce", "bad-marginal", "bad-reorder", "bad-potential"]


def gen(rng, tier):
    fam = rng.choice(["cat", "cat", "sparse", "sparse", "gauss", "gauss", "mix"])
    large = rng.choice(["values", "scope"]) if rng.random() < 0.12 else None
    nvars = rng.randrange(5, 8) if large == "scope" else rng.randrange(1, 4 if large else 6)
    vrs = models.names(rng, nvars, rng.random() < 0.3)
    cards = {v: rng.choice([1, 2, 2, 3, 3, 4]) if large != "scope" else rng.choice([1, 2, 2, 2]) for v in vrs}
    if large == "values":
        for v in rng.sample(vrs, min(nvars, rng.choice([1, 2, 2]))):
            cards[v] = rng.choice([5, 11, 12, 12, 13, 16])
        if nvars < 3 and rng.random() < 0.1:
            cards[vrs[0]] = rng.choice([129, 200, 257, 300])
    top = (4 if fam == "cat" else 3) if not large else 2 if large == "values" else {"mix": 4, "sparse": 5}.get(fam, 7)
    zero = rng.choice([0, 0, 0.2, 0.5])
    default = rng.choice([None, None, models.rnd6(rng.uniform(-1, 1))])
    zero = zero if default is None else 0.5
    small = rng.choice([1, 1, 1, 1e-3, 1e-5])
    shift = rng.choice([0, 0, 0, 0, -900, 900])
    init = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        scope = rng.sample(vrs, rng.randrange(1, min(nvars, top) + 1))
        f = {"scope": scope}
        if fam in ("cat", "sparse"):
            size = int(np.prod([cards[v] for v in scope]))
            f["logp"] = models.table_params(rng, [cards[v] for v in scope], [0] * len(scope), zero, rng.choice([1, 3, 30]))
            f["ctor"] = rng.choice(["tensor", "table"])
            assert len(f["logp"]) == size
        elif fam == "gauss":
            f.update(models.gauss_params(rng, len(scope)))
            f["g"] = f["g"] * rng.choice([1, 1, 20]) if rng.random() < 0.6 else 0.5
            f["g"] = models.rnd6(f["g"] + shift)
            s = small
            f["K"] = [[models.rnd6(x * s) for x in row] for row in f["K"]]
            f["h"] = [models.rnd6(x * s) for x in f["h"]]
        else:
            f["comps"] = [models.gauss_params(rng, len(scope)) for _ in range(rng.choice([1, 2, 3]))]
            for c in f["comps"]:
                c["g"] = models.rnd6(c["g"] + shift)
        if fam == "sparse" and default is not None and rng.random() < 0.8:
            f["default"] = default
        init.append(f)
    ops = []
    kinds = BINARY * 3 + UNARY * 2 + ASK * 2 + ["scribble"] * 3
    if rng.random() < 0.5:
        kinds = kinds + BAD
    p_int = rng.choice([0, 0.15, 0.4])
    for _ in range(rng.choice([2, 4, 8, 12, 16])):
        op = {"op": rng.choice(kinds), "i": rng.randrange(1000), "j": rng.randrange(1000),
              "r": [rng.randrange(1000) for _ in range(6)], "x": [models.rnd6(rng.uniform(-2, 2)) for _ in range(6)]}
        if rng.random() < p_int:
            op["interrupt"] = [rng.random(), rng.choice(sorted(EXC))]
        ops.append(op)
    return {"family": fam, "cards": cards, "init": init, "ops": ops, "set_order": rng.randrange(10 ** 6), "large": bool(large)}


# --- construction ----------------------------------------------------------------------------------------------------

def build(f, scn):
    fam = scn["family"]
    if fam == "mix":
        from veroku.factors.experimental.gaussian_mixture import GaussianMixture
        sub = {"family": "gauss"}
        given = [models.real_factor(dict(c, scope=f["scope"]), sub) for c in f["comps"]]
        out = GaussianMixture(given)
        for g in given:
            scribble(g)     # the components belong to the caller, who goes on using them
        return out
    owned = []
    out = models.real_factor(f, {"family": fam, "cards": scn["cards"]}, owned)
    if "default" in f:
        # the zeros of the specification are the missing assignments
        from veroku.factors.sparse_categorical import SparseCategorical
        args = {"var_names": list(f["scope"]), "cardinalities": list(out.cardinalities), "log_probs_table": dict(out.log_probs_table)}
        out = SparseCategorical(default_log_prob=f["default"], **args)
        owned += args.values()
    for o in owned:         # the arguments belong to the caller, who goes on using them
        models.scribble(o)
    return out


def build_ref(f, scn):
    fam = scn["family"]
    if fam == "mix":
        return mix.Mix([refs.Gauss(f["scope"], c["K"], c["h"], c["g"]) for c in f["comps"]])
    out = models.ref_factor(f, {"family": fam, "cards": scn["cards"]})
    if "default" in f:
        out.logp = np.where(out.logp == refs.NEG, f["default"], out.logp)
    return out


# --- operations: each returns (thunk on real objects, expected reference or a checker) -----------------------------------

class NotApplicable(Exception):
    pass


def comps(r):
    return r.comps if isinstance(r, mix.Mix) else [r]


def invertible(K):
    w = np.linalg.eigvalsh(K)
    return w.min() > 1e-6 and w.max() < 1e4 and w.max() / w.min() < 1e4


def proper(r):
    return all(not c.vrs or invertible(c.K) for c in comps(r))


def need(cond):
    if not cond:
        raise NotApplicable()


def subset(vrs, r, empty=False):
    """A seeded ordered subset."""
    out = list(vrs)
    out = out[r[0] % len(out):] + out[:r[0] % len(out)]
    if r[1] % 2:
        out.reverse()
    n = r[2] % (len(out) + 1)
    return out[:n] if (n or empty) else out[:1]


class Lent:
    """Lists that are passed to an operation. They go on belonging to the caller: they must not be changed by it, and can be
    changed by the caller afterwards."""

    def __init__(self):
        self.lists = []

    def __call__(self, values):
        out = np.array(values) if isinstance(values, np.ndarray) else list(values)
        self.lists.append((out, list(values)))
        return out

    def reclaim(self, name):
        for given, before in self.lists:
            if list(given) != before:
                raise Violation("argument-changed", f"{name} changed its argument {before} to {given}")
            models.scribble(given)
        self.lists = []


def plan(op, pool, scn, lend=copy.copy):
    """Returns (call, expected, compare) for an operation on pool entries."""
    fam = scn["family"]
    table = fam in ("cat", "sparse")
    name, r = op["op"], op["r"]
    a = pool[op["i"] % len(pool)]
    b = pool[op["j"] % len(pool)]
    fa, ra, fb, rb = a["real"], a["ref"], b["real"], b["ref"]
    if fam == "mix" and name in BINARY and r[5] % 4 == 0:
        # the other operand is a component of the mixture (a plain Gaussian)
        k = r[4] % len(rb.comps)
        fb, rb = fb.get_component(k), rb.comps[k]
    if name in BINARY:
        union = set(ra.vrs) | set(rb.vrs)
        if table:
            need(np.prod([scn["cards"][v] for v in union]) <= (400 if fam == "cat" else 80) * (5 if scn.get("large") else 1))
            need(ra.vrs and rb.vrs)
        if fam == "mix":
            need(len(ra.comps) * len(comps(rb)) <= 9)
        need(len(union) <= (8 if scn.get("large") and fam != "mix" else 5))
        if name in ("multiply", "mul", "absorb"):
            want = ra.multiply(rb)
            call = {"multiply": lambda: fa.multiply(fb), "mul": lambda: fa * fb, "absorb": lambda: fa.absorb(fb)}[name]
            return call, want, "factor"
        if table:
            bb = rb.multiply(refs.Table(ra.vrs, np.zeros(ra.logp.shape)))
            aa = ra.multiply(refs.Table(rb.vrs, np.zeros(rb.logp.shape))).reorder(bb.vrs)
            zero_b = bb.logp == refs.NEG
            if name == "divide":
                need(not zero_b.any())
                if fam == "sparse":
                    # default / default is undefined for zero defaults: only dense operands
                    need(fa.default_log_prob == fb.default_log_prob)
                    need(fa._is_dense() and fb._is_dense() or np.isfinite(fa.default_log_prob))
                    need(not (aa.logp == refs.NEG).any())
            else:
                need(not (zero_b & (aa.logp != refs.NEG)).any())
        if fam == "mix" and len(comps(rb)) > 1:
            # defined as the quotient by the Gaussian that has the moments of the denominator
            need(proper(rb) and not vacuous(fb) and abs(rb.logweight()) < 1e3)
            cov, mean = rb.moments()
            rb = refs.Gauss.from_moments(rb.vrs, cov, mean, rb.logweight())
        want = ra.divide(rb) if name == "divide" else ra.cancel(rb)
        if not table:
            need(want.scale() < 1e4)
        return (lambda: fa.divide(fb)) if name == "divide" else (lambda: fa.cancel(fb)), want, "factor"
    if name == "marginalize":
        need(ra.vrs)
        sub = subset(ra.vrs, r, empty=table)
        keep = bool(r[3] % 2)
        kept = sub if keep else [v for v in ra.vrs if v not in sub]
        need(kept or table)
        if not table:
            out = [v for v in ra.vrs if v not in kept]
            for c in comps(ra):
                if out:
                    idx = [c.vrs.index(v) for v in out]
                    need(invertible(c.K[np.ix_(idx, idx)]))
                need(np.abs(c.K).max() > 1e-6)   # (nearly) vacuous: veroku deliberately forgets g
            need(not vacuous(fa))
        # one variable can be given by its name only
        arg = sub[0] if len(sub) == 1 and r[4] % 2 else sub
        return (lambda: fa.marginalize(arg if isinstance(arg, str) else lend(arg), keep=keep)), ra.marginalize(kept), "factor"
    if name in ("reduce", "observe"):
        need(ra.vrs)
        sub = subset(ra.vrs, r)
        if table:
            vals = [r[4 + k % 2] * (k + 1) % scn["cards"][v] for k, v in enumerate(sub)]
            need(fam != "none")
        else:
            need(len(sub) < len(ra.vrs))
            vals = (op["x"] + [0.7, -0.4])[:len(sub)]
        ev = dict(zip(sub, vals))
        meth = fa.reduce if name == "reduce" else fa.observe
        return (lambda: meth(lend(sub), tuple(vals) if r[5] % 3 == 0 else lend([vals, np.array(vals)][r[5] % 3 - 1]))), ra.reduce(ev), "factor"
    if name == "normalize":
        need(ra.vrs)
        if table:
            need(np.isfinite(ra.logweight()))
        else:
            need(proper(ra) and not vacuous(fa))
        return fa.normalize, ra.normalize(), "factor"
    if name == "reorder":
        need(table and ra.vrs)
        order = subset(ra.vrs, [r[0], r[1], len(ra.vrs)])
        return (lambda: fa.reorder(lend(order))), ra.reorder(order), ("order", order)
    if name == "copy":
        return fa.copy, ra, ("order", list(ra.vrs))
    if name == "joint":
        return (lambda: fa.joint_distribution), ra, "factor"
    if name in ("equals", "eq"):
        need(fam != "mix" or fa is fb or len(ra.comps) != len(rb.comps))
        same = clearly_equal(ra, rb)
        other = clearly_different(ra, rb)
        need(same or other)
        if not table:
            # two vacuous Gaussians are considered equal whatever their weights; covariances that cannot be compared reliably
            need(not (vacuous(fa) and vacuous(fb)))
            need(proper(ra) and proper(rb) or other or getattr(fa, "canform", False))
        if fam == "cat" and set(ra.vrs) == set(rb.vrs):
            need(all(ra.card(v) == rb.card(v) for v in ra.vrs))
        return (lambda: fa.equals(fb)) if name == "equals" else (lambda: fa == fb), same, "bool"
    if name == "kl":
        need(fam != "mix" and ra.vrs and set(ra.vrs) == set(rb.vrs))
        if table:
            need(np.isfinite(ra.logweight()) and np.isfinite(rb.logweight()))
        else:
            need(proper(ra) and proper(rb) and not vacuous(fa) and not vacuous(fb))
        return (lambda: fa.kl_divergence(fb)), ra.kl(rb), "number"
    if name == "vacuous":
        need(table and ra.vrs and np.isfinite(ra.logweight()))
        uniform = refs.Table(ra.vrs, np.zeros(ra.logp.shape))
        return fa.distance_from_vacuous, ra.kl(uniform), "number"
    if name == "argmax":
        if fam == "mix":
            need(ra.vrs and proper(ra) and not vacuous(fa) and len(ra.vrs) <= 3)
            return fa.argmax, None, ("argmax", ra)
        need(table and ra.vrs and np.isfinite(ra.logweight()))
        if fam == "sparse":
            need(fa.log_probs_table or np.isfinite(fa.default_log_prob))
        return fa.argmax, None, ("argmax", ra)
    if name == "potential":
        need(ra.vrs)
        order = subset(ra.vrs, [r[0], r[1], len(ra.vrs)])
        if table:
            vals = [r[2 + k % 4] % scn["cards"][v] for k, v in enumerate(order)]
            lp = float(ra.logp[tuple(vals[order.index(v)] for v in ra.vrs)])
            return (lambda: fa.potential(lend(order), lend(vals))), float(np.exp(lp)), "number"
        vals = (op["x"] + [0.7, -0.4])[:len(order)]
        x = np.array([vals[order.index(v)] for v in ra.vrs])
        want = ra.logpot(x) if fam == "mix" else mix.gauss_logpot(ra, x)
        if r[4] % 3 == 0 and abs(want) < 600:
            # variables in the order of the factor
            return (lambda: fa.potential([float(v) for v in x])), float(np.exp(want)), "number"
        return (lambda: fa.log_potential(lend(vals), vrs=lend(order))), want, "number"
    if name == "text":
        def show():
            text = [repr(fa)] if fam != "mix" else ["x"]
            if fam == "cat":
                text += [repr(fa.get_df()), repr(fa.dense_distribution_array)]
            with contextlib.redirect_stdout(io.StringIO()):
                fa.show()
            return "".join(text)
        if not table:
            need(proper(ra) and not vacuous(fa))
        if fam == "sparse":
            need(ra.vrs)
        return show, None, "text"
    if name == "moments":
        need(ra.vrs)
        if fam == "sparse":
            return (lambda: fa.weight), float(np.exp(ra.logweight())), "number"
        need(not table and proper(ra) and not vacuous(fa))
        if fam == "mix":
            def matched():
                single = fa.moment_match_to_single_gaussian()
                return single.get_cov(), single.get_mean(), (single if op["r"][3] % 2 else fa).get_log_weight()
            return matched, ra, "moments"
        return (lambda: (fa.get_cov(), fa.get_mean(), fa.get_log_weight())), ra, "moments"
    if name in BAD:
        return (lambda: bad(name, fa, fb, ra, scn)), None, "bad"
    raise HarnessError(name)


def vacuous(f):
    return bool(getattr(f, "_is_vacuous", False)) or any(c._is_vacuous for c in getattr(f, "components", []))


def clearly_equal(ra, rb):
    return set(ra.vrs) == set(rb.vrs) and shapes(ra, rb) and mix.diff(rb, ra, 1e-9 * (1 + ra.scale())) is None


def shapes(ra, rb):
    return not isinstance(ra, refs.Table) or all(ra.card(v) == rb.card(v) for v in ra.vrs)


def clearly_different(ra, rb):
    if set(ra.vrs) != set(rb.vrs):
        return True
    if not shapes(ra, rb):
        return False
    if isinstance(ra, mix.Mix):
        return len(ra.comps) != len(rb.comps)
    if isinstance(ra, refs.Table):
        a, b = ra.logp, rb.reorder(ra.vrs).logp
        if ((a == refs.NEG) != (b == refs.NEG)).any():
            return True
        fin = a != refs.NEG
        return bool(fin.any() and (np.abs(a[fin] - b[fin]) > 0.01 * (1 + np.abs(b[fin]))).any())
    o = rb.reorder(ra.vrs)
    far = lambda x, y: bool(np.abs(x - y).max() > 0.01 * (1 + np.abs(y).max()))
    canonical = far(ra.K, o.K) or far(ra.h, o.h) or far(ra.g, o.g)
    if not canonical or not (proper(ra) and proper(o)):
        return canonical
    (S1, m1), (S2, m2) = ra.moments(), o.moments()
    return far(S1, S2) or far(m1, m2) or far(ra.logweight(), o.logweight())


def bad(name, fa, fb, ra, scn):
    """Calls with operands that are wrong; the outcome is up to the library, the operands must survive."""
    fam = scn["family"]
    if name == "bad-cards":
        if fam in ("cat", "sparse"):
            cards = dict(scn["cards"])
            v = ra.vrs[-1]
            cards[v] += 1
            size = int(np.prod([cards[u] for u in ra.vrs]))
            other = models.real_factor({"scope": list(ra.vrs), "logp": [0.5] * size}, {"family": fam, "cards": cards})
        else:
            other = fb.components if fam == "mix" else 3.0
        fa.multiply(other)
    elif name == "bad-type":
        fa.multiply("not a factor")
    elif name == "bad-reduce":
        fa.reduce(["no such variable"] + list(ra.vrs), [0] * (1 + len(ra.vrs)))
    elif name == "bad-marginal":
        fa.marginalize(list(ra.vrs)[:1] + ["no such variable"], keep=True)
    elif name == "bad-reorder":
        fa.reorder(list(ra.vrs)[:-1])
    else:
        fa.potential(["no such variable"], [0])


def check_value(got, want, how, op, ctx):
    """Compare a result with the expectation; returns the reference of a result factor."""
    label = op["op"]
    if how == "factor" or how[0] == "order":
        res = mix.read(got)
        if not isinstance(want, refs.Table):
            tol = 1e-6 * (1 + want.scale()) ** 2
        else:
            tol = 1e-9 * (1 + want.scale())
        d = mix.diff(res, want, tol)
        if d is None and how[0] == "order" and res.vrs != how[1]:
            d = f"variable order {res.vrs}, asked for {how[1]}"
        if d:
            raise Violation("wrong-result", f"{label}: {d}")
        return res
    if how == "number":
        got = float(np.asarray(got))
        ok = (np.isinf(want) and got == want) or abs(got - want) <= 1e-6 * (1 + abs(want)) or \
            (np.isinf(want) and label == "kl" and got == np.inf)
        if not ok:
            raise Violation("wrong-value", f"{label}: {got!r}, expected {want!r}")
    elif how == "bool":
        if bool(got) is not want:
            raise Violation("wrong-value", f"{label}: {got!r}, expected {want!r}")
    elif how == "text":
        if not got:
            raise Violation("wrong-value", "empty text")
    elif how == "moments":
        cov, mean = want.moments()
        n = len(want.vrs)
        for what, x, y in (("covariance", got[0], cov), ("mean", np.asarray(got[1]).reshape(-1), mean),
                           ("log weight", got[2], want.logweight())):
            x = np.asarray(x, dtype=float)
            if x.size != np.size(y) or not np.abs(x.reshape(np.shape(y)) - y).max() <= 1e-6 * (1 + np.abs(y).max()) * n:
                raise Violation("wrong-value", f"{what}: {refs.fmt(x)}, expected {refs.fmt(y)}")
    elif how[0] == "argmax":
        ra = how[1]
        if isinstance(ra, mix.Mix):
            # numerical: at least as high as at the mean of every component
            best = max(ra.logpot(c.moments()[1]) for c in ra.comps)
            if not ra.logpot(got) >= best - 1e-6 * (1 + abs(best)):
                raise Violation("wrong-value", f"argmax {refs.fmt(np.asarray(got))}: {ra.logpot(got)}, a component mean has {best}")
            return None
        at = tuple(int(x) for x in got)
        if len(at) != len(ra.vrs) or not ra.logp[at] >= ra.logp.max() - 1e-9:
            raise Violation("wrong-value", f"argmax {at} has {ra.logp[at]}, maximum is {ra.logp.max()}")
    return None


def intact(pool, why):
    for k, e in enumerate(pool):
        now = mix.read(e["real"])
        if now.vrs != e["ref"].vrs:
            raise Violation("operand-reordered", f"factor {k} {why}: {e['ref'].vrs} became {now.vrs}")
        d = mix.diff(now, e["ref"], 1e-9 * (1 + e["ref"].scale()))
        if d:
            raise Violation("operand-changed", f"factor {k} {why}: {d}")
        forms(e["real"], k, why)


def forms(f, k, why):
    """Both parameter forms of a Gaussian that are stored describe the same function."""
    for c in getattr(f, "components", [f]):
        if type(c).__name__ == "Gaussian" and c.canform and c.covform:
            try:
                a = refs.Gauss.from_moments(c.var_names, c.cov, c.mean, float(c.log_weight))
                b = refs.Gauss(c.var_names, c.prec, c.h_vec, float(c.g_val))
            except Exception as e:
                raise Violation("inconsistent-forms", f"factor {k} {why}: {type(e).__name__}: {e}") from e
            if np.linalg.cond(b.K) < 1e6 and refs.diff(a, b, 1e-6 * (1 + b.scale()) ** 2):
                raise Violation("inconsistent-forms", f"factor {k} {why}: {refs.diff(a, b, 0)}")


def scribble(f):
    from . import c09
    if type(f).__name__ == "GaussianMixture":
        for c in f.components:
            c09.scribble(c)
        f.components.clear()
    else:
        c09.scribble(f)


def execute(scn, ctx):
    with seams.set_order(scn["set_order"]):
        run(scn, ctx)


def run(scn, ctx):
    pool = [{"real": build(f, scn), "ref": build_ref(f, scn)} for f in scn["init"]]
    for e in pool:
        e["ref"] = check_value(e["real"], e["ref"], "factor", {"op": "construct"}, ctx)
    good = 0
    ctx.log(scn["family"], [f["scope"] for f in scn["init"]])
    for op in scn["ops"]:
        ctx.step()
        name = op["op"]
        if name == "scribble":
            if len(pool) > 1:
                e = pool.pop(op["i"] % len(pool))
                scribble(e["real"])
                ctx.count("fault: owner changed a factor in place")
                intact(pool, "after its owner changed another factor in place")
            continue
        try:
            lend = Lent()
            call, want, how = plan(op, pool, scn, lend)
        except NotApplicable:
            ctx.count("operation outside of the domain (not performed)")
            continue
        if how == "bad":
            ctx.count(f"fault: {name} (call with wrong operands)")
            try:
                call()
            except Violation:
                raise
            except Exception as e:      # pylint: disable=broad-except
                ctx.log(name, type(e).__name__)
            intact(pool, f"after {name}")
            continue
        if "interrupt" in op:
            interrupted(op, call, ctx, name)
            intact(pool, f"after an interrupted {name}")
        got = call()
        lend.reclaim(name)
        ctx.count(f"op: {name}")
        res = check_value(got, want, how, op, ctx)
        good += 1
        intact(pool, f"after {name}")
        if res is not None:
            if any(got is e["real"] for e in pool):
                raise Violation("result-is-operand", f"{name} returned one of its operands")
            pool.append({"real": got, "ref": res})
            ctx.log(name, res.vrs, mix_fmt(res))
            if len(pool) > 10:
                del pool[0]
        else:
            ctx.log(name, how[0] if isinstance(how, tuple) else how)
    ctx.nontrivial = good >= 2


def mix_fmt(r):
    if isinstance(r, refs.Table):
        return refs.fmt(np.round(r.logp, 6))
    return [refs.fmt(np.round(c.h, 5)) for c in comps(r)]


def interrupted(op, call, ctx, name):
    frac, kind = op["interrupt"]
    meter = monitor.Interrupter()
    with monitor.Instants(meter):
        call()
    if not meter.count:
        return
    exc = EXC[kind]("injected by the simulator")
    trap = monitor.Interrupter(int(frac * meter.count), exc)
    reached = None
    try:
        with monitor.Instants(trap):
            call()
    except (KeyboardInterrupt, MemoryError) as e:
        reached = e
    if trap.fired:
        ctx.count(f"fault: {kind} in {name}")
        ctx.log("interrupt", trap.fired)
        if reached is not exc:
            raise Violation("interrupt-swallowed", f"{kind} raised at {trap.fired} during {name} did not reach the caller")
    elif reached is not None:
        raise reached


def shrink(scn):
    for ops in nets.shrink_list(scn["ops"]):
        yield dict(scn, ops=ops)
    for k, op in enumerate(scn["ops"]):
        if "interrupt" in op:
            o = {a: b for a, b in op.items() if a != "interrupt"}
            yield dict(scn, ops=scn["ops"][:k] + [o] + scn["ops"][k + 1:])
    if len(scn["init"]) > 1:
        for k in range(len(scn["init"])):
            yield dict(scn, init=scn["init"][:k] + scn["init"][k + 1:])
