"""C18: histories of operations on factorised Gaussian factors, with failing and interrupted calls, against their product."""
import contextlib
import io

import numpy as np

from .. import models, refs, seams, mix, net as nets
from ..core import Violation
from . import c07, c09
from .c07 import NotApplicable, need, subset, invertible

ID = "C18"
PLAN = {"quick": 6000, "thorough": 500000}
RULE = ("one evaluation = one simulated history of up to 16 operations over a pool of Gaussians and factorised factors made from "
        "them; operations also fail (inconsistent operands), are interrupted at a chosen instant, or are followed by in-place "
        "changes of a factor by its owner. After every step the product of the factors of the result is compared with the "
        "reference, and every live factor with the value and variable order it had. Distinct = distinct digest of history and "
        "values; non-trivial = at least two successful operations on factorised factors.")
ASSUMPTIONS = ["reference model in sim/refs.py is right",
               "Gaussian factors only (the class says that it is focussed on these), proper wherever an inverse is needed",
               "not all variables of a factorised factor are observed or integrated out"]
COMPONENTS = {"real": ["FactorizedFactor", "Gaussian", "_factor_utils"],
              "stub": ["source of asynchronous exceptions (sys.monitoring callbacks)", "iteration order of sets"]}

OPS = ["make", "make", "multiply", "mul", "absorb", "divide", "cancel", "component", "marginalize", "marginalize", "reduce", "observe",
       "normalize", "copy", "joint", "equals", "eq", "kl", "moments", "vacuous", "show"]
BAD = ["bad-type", "bad-divide", "bad-reduce", "bad-marginal", "bad-nested"]


def gauss_spec(rng, scope):
    f = {"scope": scope}
    f.update(models.gauss_params(rng, len(scope)))
    n = len(scope)
    if n >= 2 and rng.random() < 0.3:
        # a conditional distribution of the last variable
        row = [models.rnd6(rng.uniform(-2, 2)) for _ in range(n - 1)] + [1.0]
        w = rng.choice([0.5, 1.0, 3.0])
        f["K"] = [[models.rnd6(w * a * b) for b in row] for a in row]
        c = rng.uniform(-1, 1)
        f["h"] = [models.rnd6(w * c * a) for a in row]
        f["form"] = "can"
    return f


def gen(rng, tier):
    nvars = rng.randrange(2, 7)
    vrs = models.names(rng, nvars, rng.random() < 0.3)
    shift = rng.choice([0, 0, 0, -900, 900])
    init = []
    for _ in range(rng.choice([2, 3, 4, 5])):
        f = gauss_spec(rng, rng.sample(vrs, rng.randrange(1, min(nvars, 3) + 1)))
        f["g"] = models.rnd6(f["g"] + shift)
        init.append(f)
    kinds = OPS * 3 + ["scribble"] * 3 + (BAD if rng.random() < 0.5 else [])
    p_int = rng.choice([0, 0, 0.15, 0.4])
    ops = [{"op": "make", "i": rng.randrange(1000), "j": 0, "r": [rng.randrange(1000) for _ in range(6)], "x": [0.0] * 6}]
    for _ in range(rng.choice([3, 5, 8, 12, 16])):
        op = {"op": rng.choice(kinds), "i": rng.randrange(1000), "j": rng.randrange(1000),
              "r": [rng.randrange(1000) for _ in range(6)], "x": [models.rnd6(rng.uniform(-2, 2)) for _ in range(6)]}
        if rng.random() < p_int:
            op["interrupt"] = [rng.random(), rng.choice(sorted(c07.EXC))]
        ops.append(op)
    return {"init": init, "ops": ops, "set_order": rng.randrange(10 ** 6)}


def read(f):
    """The product of the factors of a factorised factor, in the order of its variables."""
    if type(f).__name__ != "FactorizedFactor":
        return refs.read(f)
    try:
        parts = [refs.read(c) for c in f.factors]
        names = list(f.var_names)
        if f.num_factors != len(parts) or f.dim != len(names):
            raise Violation("malformed-factor", f"{f.num_factors} factors (list of {len(parts)}), dim {f.dim} over {names}")
    except Violation:
        raise
    except Exception as e:
        raise Violation("malformed-factor", f"cannot be read: {type(e).__name__}: {e}") from e
    if not parts:
        raise Violation("malformed-factor", "no factors")
    out = refs.product(parts)
    if set(names) != set(out.vrs) or len(names) != len(out.vrs):
        raise Violation("malformed-factor", f"variables {names} but the factors have {out.vrs}")
    return out.reorder(names)


def parts_of(f):
    return f.factors if type(f).__name__ == "FactorizedFactor" else [f]


def usable(f):
    """No factor of which the library deliberately forgets the weight."""
    return not any(c._is_vacuous or np.abs(refs.read(c).K).max() < 1e-6 for c in parts_of(f))


def same_groups(f, out):
    """Marginalisation and normalisation invert each group of connected factors: all must be well conditioned."""
    K = read(f)
    idx = [K.vrs.index(v) for v in out]
    return not idx or invertible(K.K[np.ix_(idx, idx)])


def plan(op, pool):
    name, r = op["op"], op["r"]
    ffs = [e for e in pool if type(e["real"]).__name__ == "FactorizedFactor"]
    gs = [e for e in pool if type(e["real"]).__name__ == "Gaussian"]
    from veroku.factors.experimental.factorised_factor import FactorizedFactor
    if name == "make":
        need(gs)
        n = 1 + r[0] % 4
        picked = [gs[(op["i"] + k * (1 + r[1] % 3)) % len(gs)] for k in range(n)]
        want = refs.product([p["ref"] for p in picked])
        need(len(want.vrs) <= 7)
        return (lambda: FactorizedFactor([p["real"] for p in picked])), want, "factor"
    need(ffs)
    a = ffs[op["i"] % len(ffs)]
    fa, ra = a["real"], a["ref"]
    if name in ("multiply", "mul", "absorb"):
        need(gs)
        b = gs[op["j"] % len(gs)]
        fb = b["real"]
        want = ra.multiply(b["ref"])
        need(len(want.vrs) <= 7 and want.scale() < 1e4)
        return {"multiply": lambda: fa.multiply(fb), "mul": lambda: fa * fb, "absorb": lambda: fa.absorb(fb)}[name], want, "factor"
    if name in ("divide", "cancel"):
        fit = [g for g in gs if any(set(g["ref"].vrs) <= set(c.var_names) for c in fa.factors)]
        need(fit)
        b = fit[op["j"] % len(fit)]
        fb = b["real"]
        return (lambda: fa.divide(fb)) if name == "divide" else (lambda: fa.cancel(fb)), ra.divide(b["ref"]), "quotient"
    if name == "component":
        # divide one of the factors out again
        comp = fa.factors[op["j"] % len(fa.factors)]
        rc = refs.read(comp)
        other = comp.copy()
        if r[0] % 2:
            other._reorder_parameters(subset(rc.vrs, [r[1], r[2], len(rc.vrs)]))
        return (lambda: fa.divide(other)), ra.divide(rc), "quotient"
    if name == "marginalize":
        sub = subset(ra.vrs, r)
        keep = bool(r[3] % 2)
        kept = sub if keep else [v for v in ra.vrs if v not in sub]
        need(kept)
        out = [v for v in ra.vrs if v not in kept]
        need(same_groups(fa, out) and usable(fa))
        arg = sub[0] if len(sub) == 1 and r[4] % 2 else list(sub)
        return (lambda: fa.marginalize(arg, keep=keep)), ra.marginalize(kept), "factor"
    if name in ("reduce", "observe"):
        sub = subset(ra.vrs, r)
        need(not all(set(c.var_names) <= set(sub) for c in fa.factors))
        vals = op["x"][:len(sub)]
        need(len(vals) == len(sub))
        meth = fa.reduce if name == "reduce" else fa.observe
        given = [tuple(vals), list(vals), np.array(vals)][r[5] % 3]
        return (lambda: meth(list(sub), given)), ra.reduce(dict(zip(sub, vals))), "factor"
    if name == "normalize":
        need(same_groups(fa, ra.vrs) and usable(fa))
        return fa.normalize, ra.normalize(), "factor"
    if name == "copy":
        return fa.copy, ra, "factor"
    if name == "joint":
        return (lambda: fa.joint_distribution), ra, "factor"
    b = pool[op["j"] % len(pool)]
    fb, rb = b["real"], b["ref"]
    if name in ("equals", "eq"):
        same = c07.clearly_equal(ra, rb)
        need(same or c07.clearly_different(ra, rb))
        need(invertible(ra.K) and invertible(rb.K) or not same)
        need(usable(fa) or usable(fb))
        return (lambda: fa.equals(fb)) if name == "equals" else (lambda: fa == fb), same, "bool"
    if name == "kl":
        need(set(ra.vrs) == set(rb.vrs) and invertible(ra.K) and invertible(rb.K) and usable(fa) and usable(fb))
        return (lambda: fa.kl_divergence(fb)), ra.kl(rb), "number"
    if name == "moments":
        need(invertible(ra.K) and usable(fa))
        return (lambda: (fa.get_cov(), fa.get_mean())), ra, "moments"
    if name == "vacuous":
        big = np.abs(ra.K).max()
        need(big > 1e-3 or big == 0.0)
        return (lambda: fa.is_vacuous), bool(big == 0.0), "bool"
    if name == "show":
        def show():
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                fa.show()
            return out.getvalue()
        need(same_groups(fa, ra.vrs) and usable(fa) and all(invertible(refs.read(c).K) for c in fa.factors))
        return show, None, "text"
    return (lambda: bad(name, fa, fb, ra)), None, "bad"


def bad(name, fa, fb, ra):
    """Calls that are wrong; the outcome is up to the library, the operands must survive."""
    from veroku.factors.experimental.factorised_factor import FactorizedFactor
    from veroku.factors.gaussian import Gaussian
    strange = Gaussian(prec=[[1.0]], h_vec=[0.5], g_val=0.1, var_names=["not-a-variable"])
    if name == "bad-type":
        fa.multiply(fb if fb is not fa else 3.0)
    elif name == "bad-divide":
        fa.divide(strange)
    elif name == "bad-reduce":
        fa.reduce(ra.vrs[:1] + ["not-a-variable"], [0.5])
    elif name == "bad-marginal":
        fa.marginalize(list(ra.vrs), keep=False)
    else:
        FactorizedFactor([fa, strange])


def check_value(got, want, how, op):
    name = op["op"]
    if how in ("factor", "quotient"):
        have = read(got)
        tol = 1e-6 * (1 + want.scale()) * (1 + len(want.vrs))
        if how == "quotient" and set(have.vrs) < set(want.vrs):
            # a factor that is divided out completely takes its variables along
            gone = [want.vrs.index(v) for v in want.vrs if v not in have.vrs]
            if np.abs(want.K[gone]).max() > tol or np.abs(want.h[gone]).max() > tol:
                raise Violation("wrong-value", f"{name}: variables {have.vrs}, expected {want.vrs}")
            want = want.reduce({want.vrs[k]: 0.0 for k in gone})
        d = refs.diff(have, want, tol)
        if d:
            raise Violation("wrong-value", f"{name}: {d}")
        return want.reorder(have.vrs)
    if how == "moments":
        cov, mean = want.moments()
        for what, x, y in (("covariance", got[0], cov), ("mean", np.asarray(got[1]).reshape(-1), mean)):
            x = np.asarray(x, dtype=float)
            if x.shape != np.shape(y) or not np.abs(x - y).max() <= 1e-6 * (1 + np.abs(y).max()) * len(want.vrs):
                raise Violation("wrong-value", f"{what} over {want.vrs}: {refs.fmt(x)}, expected {refs.fmt(y)}")
        return None
    return c07.check_value(got, want, how, op, None)


def intact(pool, why):
    for k, e in enumerate(pool):
        now = read(e["real"])
        if now.vrs != e["ref"].vrs:
            raise Violation("operand-reordered", f"factor {k} {why}: {e['ref'].vrs} became {now.vrs}")
        d = refs.diff(now, e["ref"], 1e-9 * (1 + e["ref"].scale()))
        if d:
            raise Violation("operand-changed", f"factor {k} {why}: {d}")
        for c in parts_of(e["real"]):
            c07.forms(c, k, why)


def scribble(f):
    for c in parts_of(f):
        c09.scribble(c)
    if type(f).__name__ == "FactorizedFactor":
        f.factors.reverse()
        f.factors.pop()


def execute(scn, ctx):
    with seams.set_order(scn["set_order"]):
        run(scn, ctx)


def run(scn, ctx):
    pool = []
    for f in scn["init"]:
        real = models.real_factor(f, {"family": "gauss"})
        pool.append({"real": real, "ref": refs.read(real)})
    good = 0
    ctx.log([f["scope"] for f in scn["init"]])
    for op in scn["ops"]:
        ctx.step()
        name = op["op"]
        if name == "scribble":
            if len(pool) > 2:
                e = pool.pop(op["i"] % len(pool))
                scribble(e["real"])
                ctx.count("fault: owner changed a factor in place")
                intact(pool, "after its owner changed another factor in place")
            continue
        try:
            call, want, how = plan(op, pool)
            if how in ("factor", "quotient"):
                need(want.scale() < 1e4)
        except NotApplicable:
            ctx.count("operation outside of the domain (not performed)")
            continue
        if how == "bad":
            ctx.count(f"fault: {name} (call with wrong operands)")
            try:
                call()
            except Exception as e:      # pylint: disable=broad-except
                ctx.log(name, type(e).__name__)
            intact(pool, f"after {name}")
            continue
        if "interrupt" in op:
            c07.interrupted(op, call, ctx, name)
            intact(pool, f"after an interrupted {name}")
        got = call()
        ctx.count(f"op: {name}")
        res = check_value(got, want, how, op)
        good += 1
        intact(pool, f"after {name}")
        if res is not None:
            if any(got is e["real"] for e in pool):
                raise Violation("result-is-operand", f"{name} returned one of its operands")
            # from here on the result is compared with the value that it has now
            pool.append({"real": got, "ref": read(got)})
            ctx.log(name, res.vrs, refs.fmt(np.round(res.h, 5)))
            if len(pool) > 10:
                del pool[0]
        else:
            ctx.log(name, how)
    ctx.nontrivial = good >= 3


def shrink(scn):
    for ops in nets.shrink_list(scn["ops"]):
        yield dict(scn, ops=ops)
    for k, op in enumerate(scn["ops"]):
        if "interrupt" in op:
            o = {a: b for a, b in op.items() if a != "interrupt"}
            yield dict(scn, ops=scn["ops"][:k] + [o] + scn["ops"][k + 1:])
    if len(scn["init"]) > 1:
        for k in range(len(scn["init"])):
            yield dict(scn, init=scn["init"][:k] + scn["init"][k + 1:])
