"""C19: names of values stay with the values they name, through histories of operations and through message passing."""
import copy
import pickle

import numpy as np

from .. import models, refs, seams, monitor, net as nets
from ..core import Violation, Skip, HarnessError
from . import c07, c09

ID = "C19"
PLAN = {"quick": 6000, "thorough": 400000}
RULE = ("one evaluation = one simulated run: (factor) a history of operations over a pool of categorical factors whose values have "
        "names, some of them named differently, with interrupted calls, in-place changes by the owner and failing calls; or (graph) "
        "a cluster graph of named factors under a random schedule of deliveries, partial process_graph calls, interrupts and "
        "snapshots. After every step the names in every live factor, and the table by names, are compared with the reference. "
        "Distinct = distinct digest of history and results; non-trivial = at least two operations on named factors succeeded, or a "
        "message was delivered.")
ASSUMPTIONS = ["reference model in sim/refs.py is right",
               "whether factors that differ in names only are equal is not judged"]
COMPONENTS = {"real": ["Categorical", "ClusterGraph", "Cluster", "_GraphMessagePath", "pandas"],
              "stub": ["source of asynchronous exceptions (sys.monitoring callbacks)", "iteration order of sets", "message scheduler"]}

OPS = ["multiply", "multiply", "mul", "absorb", "divide", "cancel", "marginalize", "marginalize", "reduce", "observe", "normalize",
       "reorder", "reorder", "copy", "kl", "vacuous", "table", "table", "best", "best", "pickle"]
RARE = ["plot"]
WORDS = ["sun", "rain", "yes", "no", "low", "mid", "high", "A", "B", "C", "prob", "assignment", "", " ", "0", "1", "2", "None"]


# --- generation --------------------------------------------------------------------------------------------------------

def gen_names(rng, card):
    """Names for the values of a variable (None: the default, which are the indices)."""
    kind = rng.choice(["words", "words", "permuted", "shifted", "floats", "bool", "tuples", None])
    if kind is None:
        return None
    if kind == "words":
        return rng.sample(WORDS, card)
    if kind == "permuted":
        out = list(range(card))
        rng.shuffle(out)
        return out
    if kind == "shifted":
        return [i + 1 for i in range(card)]
    if kind == "floats":
        return [models.rnd6(x + 0.25) for x in rng.sample(range(max(9, card)), card)]
    if kind == "bool":
        return ([True, False] + [f"other{i}" for i in range(card)])[:card]
    return [["interval", i, i + 1] for i in rng.sample(range(max(9, card)), card)]     # (lists become tuples)


def gen(rng, tier):
    scn = gen_factor(rng) if rng.random() < 0.6 else gen_graph(rng)
    scn["set_order"] = rng.randrange(10 ** 6)
    return scn


def gen_factor(rng):
    nvars = rng.randrange(1, 6)
    vrs = models.names(rng, nvars, rng.random() < 0.2)
    cards = {v: rng.choice([1, 2, 2, 3, 3, 4]) for v in vrs}
    many = rng.random() < 0.04
    if many:
        for v in rng.sample(vrs, min(nvars, rng.choice([1, 2]))):
            cards[v] = rng.choice([5, 10, 11, 12, 16])
    names = {v: gen_names(rng, cards[v]) for v in vrs}
    zero = rng.choice([0, 0, 0.3])
    init = []
    for _ in range(rng.choice([2, 3, 4])):
        scope = rng.sample(vrs, rng.randrange(1, min(nvars, 4 if not many else 2) + 1))
        shape = [cards[v] for v in scope]
        f = {"scope": scope, "logp": models.table_params(rng, shape, [0] * len(scope), zero, rng.choice([1, 3]))}
        if rng.random() < 0.25:
            # somebody else's names for one of the variables
            v = rng.choice(scope)
            f["other"] = {v: gen_names(rng, cards[v])}
        init.append(f)
    ops = []
    p_int = rng.choice([0, 0, 0.2, 0.4])
    for _ in range(rng.choice([3, 5, 8, 12, 16])):
        op = {"op": rng.choice(OPS + ["scribble", "scribble", "bad-names"] + (RARE if rng.random() < 0.3 else [])), "i": rng.randrange(1000), "j": rng.randrange(1000),
              "r": [rng.randrange(1000) for _ in range(6)], "x": [0.0] * 6}
        if rng.random() < p_int:
            op["interrupt"] = [rng.random(), rng.choice(sorted(c07.EXC))]
        ops.append(op)
    return {"kind": "factor", "family": "cat", "cards": cards, "names": names, "init": init, "ops": ops}


def gen_graph(rng):
    loopy = rng.random() < 0.3
    spec = models.model(rng, "loopy" if loopy else "tree", "cat", rng.choice([1, 2, 3, 4, 5]), zero_rate=rng.choice([0, 0, 0.2]),
                        spread=rng.choice([0.5, 1.5]), joint_limit=1000, max_scope=3, max_card=3, n_vars=rng.randrange(2, 6),
                        disconnected=0.05, big=0.04)
    kinds = ["pass"] * 4 + rng.choice([[], ["burst"], ["hold", "late"], ["process"]])
    ops = nets.gen_ops(rng, rng.choice([2, 5, 12]), kinds)
    for _ in range(rng.choice([0, 0, 1, 2])):
        ops.insert(rng.randrange(len(ops) + 1), rng.choice([["snap", "deepcopy"], ["snap", "pickle"],
                                                            ["interrupt", int(10 ** rng.uniform(0, 3.5)), rng.randrange(24)]]))
    names = {v: gen_names(rng, c) for v, c in sorted(spec["cards"].items())}
    odd = None
    if rng.random() < 0.2:
        k = rng.randrange(len(spec["factors"]))
        v = rng.choice(spec["factors"][k]["scope"])
        odd = [k, v, gen_names(rng, spec["cards"][v])]
    return {"kind": "graph", "spec": spec, "names": names, "odd": odd, "ops": ops, "perms": [rng.randrange(99) for _ in range(7)]}


# --- names ---------------------------------------------------------------------------------------------------------------

def fixed(names, card):
    """As the library is to give them."""
    if names is None:
        return tuple(range(card))
    return tuple(tuple(n) if isinstance(n, list) else n for n in names)


def exact(names):
    return [(type(n).__name__, n) for n in names]


def build(f, cards, names):
    """A factor with names; the lists are the caller's, who changes them afterwards."""
    from veroku.factors.categorical import Categorical
    shape = [cards[v] for v in f["scope"]]
    t = np.array([refs.NEG if x is None else x for x in f["logp"]], dtype=float).reshape(shape)
    mine = [list(fixed(names[v], cards[v])) for v in f["scope"]]
    given = None if all(names[v] is None for v in f["scope"]) else mine
    out = Categorical(var_names=list(f["scope"]), log_probs_tensor=t, variables_assignment_names=given)
    for n in mine:
        n[:] = [f"changed by its owner {k}" for k in range(len(n))]
    return out


def check_names(f, names, what):
    """Names, and the table by names, of a factor."""
    want = {v: names[v] for v in f.var_names}
    got = f.vars_assignments_names_dict
    if set(got) != set(want):
        raise Violation("names-scope", f"{what}: names for {sorted(got)}, the factor has {sorted(want)}")
    for v in want:
        if exact(got[v]) != exact(want[v]):
            raise Violation("wrong-names", f"{what}: values of {v} are named {got[v]}, expected {want[v]}")


def check_table(f, ref, names, what):
    """The data frame with names lists every assignment, by its name, with its value."""
    ref = ref.reorder(list(f.var_names))
    df = f.get_df(named_assignments=True)
    cols = list(f.var_names) + ["prob"]
    if list(df.columns) != cols:
        raise Violation("wrong-table", f"{what}: columns {list(df.columns)}, expected {cols}")
    rows = [list(r) for r in df.itertuples(index=False, name=None)]
    want = [[names[v][a[k]] for k, v in enumerate(ref.vrs)] + [float(np.exp(ref.logp[a]))] for a in np.ndindex(ref.logp.shape)]
    if len(rows) != len(want):
        raise Violation("wrong-table", f"{what}: {len(rows)} rows, expected {len(want)}")
    left = list(want)
    for r in rows:
        for k, w in enumerate(left):
            if r[:-1] == w[:-1]:
                if not r[-1] == w[-1] and not abs(r[-1] - w[-1]) <= 1e-9 * (1 + abs(w[-1])):
                    raise Violation("wrong-table", f"{what}: {r[:-1]} has {r[-1]}, expected {w[-1]}")
                del left[k]
                break
        else:
            raise Violation("wrong-table", f"{what}: row {r} is not an assignment of {ref.vrs} (or is there twice)")


def check_best(f, ref, names, what):
    got = f.argmax_assignment_names()
    ref = ref.reorder(list(f.var_names))
    if len(got) != len(ref.vrs):
        raise Violation("wrong-maximum", f"{what}: {got} for {ref.vrs}")
    at = []
    for v, n in zip(ref.vrs, got):
        if n not in names[v]:
            raise Violation("wrong-maximum", f"{what}: {n!r} is not a value of {v} ({names[v]})")
        at.append(names[v].index(n))
    if not ref.logp[tuple(at)] >= ref.logp.max() - 1e-9 * (1 + ref.scale()):
        raise Violation("wrong-maximum", f"{what}: {got} has {ref.logp[tuple(at)]}, maximum is {ref.logp.max()}")


def says(token, name):
    """Whether a part of a label stands for a name (numbers are rounded, and integers may be shown as floats)."""
    if token == str(name):
        return True
    try:
        return not isinstance(name, str) and abs(float(token) - float(name)) < 0.006
    except (TypeError, ValueError):
        return False


def check_plot(f, ref, names, what):
    """The bars of the plot, by their labels."""
    import matplotlib.pyplot as plt
    tuples = any(isinstance(n, tuple) for v in f.var_names for n in names[v])
    try:
        f.plot()
        axes = plt.gca()
        labels = [t.get_text() for t in axes.get_yticklabels()]
        bars = [float(p.get_width()) for p in axes.patches]
    finally:
        plt.close("all")
    ref = ref.reorder(list(f.var_names))
    left = {a: float(np.exp(ref.logp[a])) for a in np.ndindex(ref.logp.shape)}
    if len(labels) != len(left) or len(bars) != len(left):
        raise Violation("wrong-plot", f"{what}: {len(bars)} bars with {len(labels)} labels for {len(left)} assignments")
    for text, bar in zip(labels, bars):
        tokens = text.split(", ")
        if tuples or len(tokens) != len(ref.vrs):
            # (a name is a tuple: only the values are compared)
            hits = [a for a, p in left.items() if abs(p - bar) <= 1e-9 * (1 + p)]
        else:
            hits = [a for a, p in left.items() if abs(p - bar) <= 1e-9 * (1 + p)
                    and all(says(t, names[v][a[k]]) for k, (t, v) in enumerate(zip(tokens, ref.vrs)))]
        if not hits or not tuples and len(tokens) != len(ref.vrs):
            raise Violation("wrong-plot", f"{what}: bar {text!r} of length {bar} is not in {ref.vrs}: {left}")
        del left[hits[0]]


def bad_names(card, r):
    """Names that do not name every value exactly once."""
    good = [f"n{k}" for k in range(card)]
    return [good + ["more"], good[:-1], good[:-1] + [good[0]] if card > 1 else good + good, good + [good[0]]][r % 4]


# --- histories of operations ----------------------------------------------------------------------------------------------

def execute(scn, ctx):
    with seams.set_order(scn["set_order"]):
        (run_factor if scn["kind"] == "factor" else run_graph)(scn, ctx)


def intact(pool, why):
    for k, e in enumerate(pool):
        now = refs.read(e["real"])
        if now.vrs != e["ref"].vrs or refs.diff(now, e["ref"], 1e-9 * (1 + e["ref"].scale())):
            raise Violation("operand-changed", f"factor {k} {why}: {now.vrs} {refs.diff(now, e['ref'], 0)}")
        check_names(e["real"], e["names"], f"factor {k} {why}")


def run_factor(scn, ctx):
    from veroku.factors.categorical import Categorical, InconsistentAssignmentNamesError
    cards = scn["cards"]
    pool = []
    for f in scn["init"]:
        own = dict(scn["names"], **f.get("other", {}))
        names = {v: fixed(own[v], cards[v]) for v in f["scope"]}
        pool.append({"real": build(f, cards, own), "ref": models.ref_factor(f, scn), "names": names})
    intact(pool, "as constructed")
    ctx.log([f["scope"] for f in scn["init"]], [o["op"] for o in scn["ops"]])
    ctx.count("runs: factor")
    good = 0
    for op in scn["ops"]:
        ctx.step()
        name, r = op["op"], op["r"]
        a, b = pool[op["i"] % len(pool)], pool[op["j"] % len(pool)]
        if name == "scribble":
            if len(pool) > 1:
                e = pool.pop(op["i"] % len(pool))
                f = e["real"]
                c09.scribble(f)
                for v in list(f.vars_assignments_names_dict):
                    f.vars_assignments_names_dict[v] = ("changed by its owner",)
                if r[0] % 2:
                    f.vars_assignments_names_dict.clear()
                ctx.count("fault: owner changed a factor in place")
                intact(pool, "after its owner changed another factor in place")
            continue
        if name == "bad-names":
            v = r[0] % len(scn["init"][0]["scope"])
            f = scn["init"][0]
            names = [[f"n{k}" for k in range(cards[u])] for u in f["scope"]]
            names[v] = bad_names(cards[f["scope"][v]], r[1])
            ctx.count("fault: names that are not one for every value")
            try:
                Categorical(var_names=list(f["scope"]), log_probs_tensor=models.to_tensor(f, cards), variables_assignment_names=names)
            except Exception:     # pylint: disable=broad-except
                continue
            raise Violation("bad-names-accepted", f"values of {f['scope']} with cardinalities {[cards[u] for u in f['scope']]} named {names}")
        if name in ("table", "best", "pickle", "plot"):
            if name == "table":
                check_table(a["real"], a["ref"], a["names"], "data frame")
            elif name == "plot":
                if a["ref"].logp.size > 30 or not a["ref"].vrs or not a["ref"].scale() < 600:
                    continue
                check_plot(a["real"], a["ref"], a["names"], "plot")
            elif name == "best":
                check_best(a["real"], a["ref"], a["names"], "argmax_assignment_names")
            else:
                back = pickle.loads(pickle.dumps(a["real"])) if r[0] % 2 else copy.deepcopy(a["real"])
                pool.append({"real": back, "ref": a["ref"], "names": a["names"]})
            ctx.count(f"op: {name}")
            intact(pool, f"after {name}")
            ctx.log(name)
            continue
        try:
            call, want, how = c07.plan(op, pool, scn)
        except c07.NotApplicable:
            ctx.count("operation outside of the domain (not performed)")
            continue
        binary = name in c07.BINARY or name == "kl"
        clash = binary and any(exact(a["names"][v]) != exact(b["names"][v]) and a["names"][v] != b["names"][v]
                               for v in set(a["names"]) & set(b["names"]))
        if clash:
            ctx.count("fault: operands that name the values of a variable differently")
            try:
                call()
            except InconsistentAssignmentNamesError:
                intact(pool, f"after {name} was refused")
                continue
            raise Violation("clash-accepted", f"{name} of factors that name values differently: {a['names']} and {b['names']}")
        if binary and any(exact(a["names"][v]) != exact(b["names"][v]) for v in set(a["names"]) & set(b["names"])):
            continue    # equal, but of different types (1, 1.0, True): either will do
        if "interrupt" in op:
            c07.interrupted(op, call, ctx, name)
            intact(pool, f"after an interrupted {name}")
        got = call()
        ctx.count(f"op: {name}")
        res = c07.check_value(got, want, how, op, ctx)
        good += 1
        intact(pool, f"after {name}")
        if res is not None:
            names = dict(b["names"], **a["names"]) if binary else a["names"]
            e = {"real": got, "ref": res, "names": {v: names[v] for v in res.vrs}}
            check_names(got, names, f"result of {name}")
            pool.append(e)
            ctx.log(name, res.vrs, refs.fmt(np.round(res.logp, 6)))
            if len(pool) > 10:
                del pool[0]
        else:
            ctx.log(name, how)
    for e in pool:
        if all(c >= 1 for c in e["ref"].logp.shape) and np.isfinite(e["ref"].logweight()):
            check_best(e["real"], e["ref"], e["names"], "at the end")
            check_table(e["real"], e["ref"], e["names"], "at the end")
    ctx.nontrivial = good >= 2


# --- graphs -----------------------------------------------------------------------------------------------------------------

def whole_graph(cg, names, what):
    net = nets.Net(cg)
    for k, c in enumerate(cg._clusters):
        check_names(c.factor, names, f"cluster {k} {what}")
    for k, p in enumerate(net.paths):
        check_names(p.next_message.factor, names, f"pending message {net.ends[k]} {what}")
    return net


def run_graph(scn, ctx):
    from veroku.cluster_graph import ClusterGraph
    from veroku.factors.categorical import InconsistentAssignmentNamesError
    spec = scn["spec"]
    cards = spec["cards"]
    truth = models.Truth(spec)
    if not truth.possible():
        raise Skip("impossible model")
    factors, given = [], []
    observed = set(spec["evidence"]) | set(spec["special"])
    clash = False
    for k, f in enumerate(spec["factors"]):
        own = dict(scn["names"])
        if scn["odd"] and scn["odd"][0] == k:
            v = scn["odd"][1]
            was = fixed(own[v], cards[v])
            own[v] = scn["odd"][2]
            shared = any(v in g["scope"] for j, g in enumerate(spec["factors"]) if j != k)
            if exact(fixed(own[v], cards[v])) != exact(was):
                if fixed(own[v], cards[v]) == was or v in observed or not shared:
                    own[v] = scn["names"][v]
                else:
                    clash = True
        factors.append(build(f, cards, own))
        given.append({v: fixed(own[v], cards[v]) for v in f["scope"]})
    names = {v: fixed(scn["names"][v], c) for v, c in cards.items()}
    orig = [refs.read(f) for f in factors]

    def supplied(what):
        for f, n, o in zip(factors, given, orig):
            check_names(f, n, f"supplied factor {what}")
            if refs.diff(refs.read(f), o, 0) or refs.read(f).vrs != o.vrs:
                raise Violation("supplied-factor-changed", what)
    ctx.count("runs: graph")
    if clash:
        ctx.count("fault: a factor that names the values of a shared variable differently")
        try:
            cg = ClusterGraph(factors, **models.graph_args(spec))
            for _ in range(2):
                nets.fair_rounds(nets.Net(cg), scn["perms"], ctx)
        except InconsistentAssignmentNamesError:
            supplied("after the graph was refused")
            ctx.log("refused")
            ctx.nontrivial = True
            return
        raise Violation("clash-accepted", f"factor {scn['odd'][0]} names the values of {scn['odd'][1]} differently, but no call failed")
    cg = ClusterGraph(factors, **models.graph_args(spec))
    net = whole_graph(cg, names, "of the new graph")
    ctx.nontrivial = len(net) > 0
    ctx.log(sorted(net.ends), scn["ops"])
    for op in scn["ops"]:
        ctx.step()
        if op[0] == "snap":
            ctx.count(f"fault: snapshot by {op[1]}")
            old = cg
            cg = copy.deepcopy(cg) if op[1] == "deepcopy" else pickle.loads(pickle.dumps(cg))
            for c in old._clusters:
                c.factor.vars_assignments_names_dict.clear()
            net = nets.Net(cg)
        elif op[0] == "interrupt":
            trap = monitor.Interrupter(op[1], KeyboardInterrupt("injected by the simulator"))
            try:
                with monitor.Instants(trap):
                    if len(net):
                        net.deliver(op[2] % len(net))
            except KeyboardInterrupt:
                pass
            if trap.fired:
                ctx.count("fault: interrupt while a message is passed")
        else:
            nets.apply_op(net, op, ctx)
        whole_graph(cg, names, f"after {op}")
    supplied("after message passing")
    cg.process_graph(tol=1e-9, max_iter=net.n_clusters)
    if net.acyclic():
        for _ in range(2):
            nets.fair_rounds(net, scn["perms"], ctx)
    whole_graph(cg, names, "at the end")
    asked = [(f"marginal over {q}", cg.get_marginal(list(q)), truth.marginal(q) if net.acyclic() else None)
             for q in truth.queries()]
    asked += [(f"marginal of {v}", cg.get_marginal([v]), truth.marginal([v]) if net.acyclic() else None) for v in truth.unobserved[:4]]
    if not spec["special"] and truth.joint_size() <= 300:
        asked.append(("posterior joint", cg.get_posterior_joint(), None))
    for what, f, want in asked:
        check_names(f, names, what)
        own = refs.read(f)
        check_table(f, own, names, what)
        if f.var_names and np.isfinite(own.logweight()):
            check_best(f, own, names, what)
            if want is not None:
                # by name, against the model
                w = want.normalize().reorder(own.vrs)
                n = own.normalize()
                if np.abs(np.exp(n.logp) - np.exp(w.logp)).max() > 1e-6:
                    raise Violation("wrong-answer", f"{what}: {refs.fmt(np.exp(n.logp))}, expected {refs.fmt(np.exp(w.logp))}")
        ctx.count("answers compared")
    supplied("at the end")
    ctx.log([refs.fmt(np.round(refs.read(f).logp, 6)) for _, f, _ in asked])


# --- shrinking -----------------------------------------------------------------------------------------------------------------

def shrink(scn):
    for ops in nets.shrink_list(scn["ops"]):
        yield dict(scn, ops=ops)
    if scn["kind"] == "factor":
        for k, op in enumerate(scn["ops"]):
            if "interrupt" in op:
                o = {a: b for a, b in op.items() if a != "interrupt"}
                yield dict(scn, ops=scn["ops"][:k] + [o] + scn["ops"][k + 1:])
        if len(scn["init"]) > 1:
            for k in range(len(scn["init"])):
                yield dict(scn, init=scn["init"][:k] + scn["init"][k + 1:])
