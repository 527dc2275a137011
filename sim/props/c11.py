"""C11: drawings and animations of message passing with a simulated renderer and disk."""
import contextlib
import copy
import io
import os
import pickle
import shutil
import tempfile
import threading

import numpy as np
from PIL import Image

from .. import models, monitor, nlg, threads, studio, seams, net as nets
from ..core import Violation, Skip, HarnessError
from . import c01, c02, c08, c12

ID = "C11"
PLAN = {"quick": 2500, "thorough": 120000}
RULE = ("one evaluation = one simulated run: animated and plain processing, drawings, GIF files and copies of graphs in random "
        "order, by one thread or by several with own graphs under a seeded schedule, while the renderer and the disk fail and "
        "interrupts arrive at chosen points. Every image is traced back to the drawing it shows, and compared with the message "
        "it stands for; the inference is compared with that of an unanimated twin. Distinct = distinct digest of messages and "
        "frames; non-trivial = at least one frame was made.")
ASSUMPTIONS = ["the real dot program draws what its input says (the stub encodes the input in the image)",
               "variable names without quotes, backslashes, colons and double dashes (which have a meaning in DOT)",
               "a failing animation may keep frames of the message whose rendering failed, as far as they were made"]
COMPONENTS = {"real": ["ClusterGraph", "_animation", "graphviz wrapper", "PIL (PNG decoding, GIF writing and reading)", "temporary directories"],
              "stub": ["dot program", "display", "free disk space", "thread scheduling decisions", "source of asynchronous exceptions"]}


def gen(rng, tier):
    kind = "save" if rng.random() < 0.01 else rng.choice(["one", "one", "threads"])
    scn = {"kind": kind, "set_order": rng.randrange(10 ** 6)}
    if kind == "save":
        scn["spec"] = spec_of(rng, 4)
    elif kind == "one":
        scn["spec"] = spec_of(rng, 6)
        scn["ops"] = [op_of(rng) for _ in range(rng.choice([1, 2, 3, 5, 7]))]
        scn["perms"], scn["subsets"] = [rng.randrange(99) for _ in range(6)], []
    else:
        n = rng.choice([2, 2, 3])
        scn["specs"] = [spec_of(rng, 3) for _ in range(n)]
        if rng.random() < 0.3:
            scn["specs"][1] = copy.deepcopy(scn["specs"][0])
        scn["jobs"] = [{"iters": rng.choice([1, 1, 2]), "tol": rng.choice([1e-1, 1e-6]), "show": rng.random() < 0.4, "gif": rng.random() < 0.3,
                        "fault": [rng.randrange(0, 14), rng.choice(studio.FAULTS)] if rng.random() < 0.25 else None}
                       for _ in range(n)]
        scn["together"] = rng.random() < 0.25      # afterwards, all threads draw the first graph
        scn["schedule"] = threads.gen_schedule(rng, n)
        if rng.random() < 0.5:
            scn["rare"] = rng.choice([2, 5, 20])
    return scn


def spec_of(rng, clusters):
    if rng.random() < 0.08:
        return nlg.model(rng)
    fam = rng.choice(["cat", "cat", "sparse", "gauss"])
    return models.model(rng, "tree" if fam == "gauss" else rng.choice(["tree", "tree", "loopy"]), fam, rng.choice([1] + list(range(2, clusters + 1)) * 2),
                        joint_limit=200, max_scope=3, max_card=2, n_vars=rng.randrange(2, 5), disconnected=0.1)


def op_of(rng):
    r = rng.random()
    if r < 0.5:
        fault = None
        if rng.random() < 0.35:
            fault = [rng.choice([0, 1, 2, 3, 4, 5, 6, rng.randrange(30)]), rng.choice(studio.FAULTS)]
        elif rng.random() < 0.25:
            fault = ["interrupt", int(8 * 300 ** rng.random()), rng.choice(["KeyboardInterrupt", "MemoryError"])]
        return ["animate", rng.choice([1, 1, 2, 3]), rng.choice([1e-1, 1e-3, 1e-9]), fault]
    if r < 0.6:
        return ["process", rng.choice([1, 2]), rng.choice([1e-1, 1e-6])]
    if r < 0.72:
        return ["show", rng.choice(studio.FAULTS) if rng.random() < 0.3 else None]
    if r < 0.87:
        return ["gif", rng.choice([0, 10, 200, 900, 2000]) if rng.random() < 0.4 else None]
    return ["copy", rng.choice(["deepcopy", "pickle"]), rng.random() < 0.5]


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


# --- observation -----------------------------------------------------------------------------------------------------------

def ids(cg):
    return [c.cluster_id for c in cg._clusters]


def drawn_by_show(cg, st):
    """The drawing that show() displays now (None if it cannot be observed)."""
    got = st.shown.setdefault(threading.get_ident(), [])
    before = len(got)
    with contextlib.redirect_stdout(io.StringIO()):
        cg.show()
    new = got[before:]
    if len(new) > 1:
        raise Violation("wrong-display", f"show() displayed {len(new)} images")
    return studio.Drawing(st.source(new[0]), ids(cg)) if new else None


def check_neutral(d, cg):
    """The drawing of the whole graph, uniformly coloured."""
    net = nets.Net(cg)
    names = ids(cg)
    if len(set(d.fill.values())) > 1 or len({c for e in d.edge.values() for c in e}) > 1:
        raise Violation("not-neutral", f"colours {d.fill} {[(sorted(k), v) for k, v in d.edge.items()]}")
    want = {frozenset((names[a], names[b])): sorted(net.paths[i].sender_cluster.get_sepset(net.paths[i].receiver_cluster.cluster_id))
            for i, (a, b) in enumerate(net.ends)}
    if set(d.edge) != set(want):
        raise Violation("wrong-drawing", f"edges {[sorted(e) for e in d.edge]}, graph has {[sorted(e) for e in want]}")
    for e, vrs in want.items():
        if sorted(str(d.labels[e]).split(",")) != vrs:
            raise Violation("wrong-drawing", f"edge between {sorted(e)} is labelled {d.labels[e]!r}, separator {vrs}")


STAGES = 6


def stages(msg):
    a, b = msg
    e = frozenset((a, b))
    return [{a}, {a, e}, {a, b, e}, {b, e}, {b}, set()]


def check_frames(frames, msgs, neutral, names, st, complete, where):
    """Frames that must tell the story of the messages (complete=False: the last message's may be missing partly)."""
    want = [(m, s) for m in msgs for s in stages(m)]
    if complete and len(frames) != len(want) or not complete and not len(want) - STAGES <= len(frames) <= len(want):
        raise Violation("frame-count", f"{where}: {len(frames)} new frames for {len(msgs)} messages")
    for k, (im, (msg, stage)) in enumerate(zip(frames, want)):
        got = studio.lit(studio.Drawing(st.source(im), names), neutral)
        if got != stage:
            raise Violation("wrong-frame", f"{where}: frame {k} (image {k % STAGES} of message {msg[0]} -> {msg[1]}) highlights "
                                           f"{[x if isinstance(x, str) else sorted(x) for x in got]}")


def story(frames, st):
    out = []
    for im in frames:
        s = st.source(im)
        if not out or out[-1] != s:
            out.append(s)
    return out


def check_gif(cg, st, name, room, ctx):
    frames = cg.message_passing_animation_frames
    if not frames:
        try:
            cg.make_message_passing_animation_gif(name)
        except Exception:  # pylint: disable=broad-except
            pass
        return
    if room is not None:
        st.files[name] = room
        full = []
        st.on_fault, keep = (lambda n: (full.append(n), keep(n))), st.on_fault
        try:
            cg.make_message_passing_animation_gif(name)
        except OSError:
            pass
        else:
            if full:
                raise Violation("error-swallowed", "the disk was full when the GIF was written, but there was no error")
        finally:
            del st.files[name]
            st.on_fault = keep
        if full:
            ctx.count("fault: disk full while the GIF is written")
    cg.make_message_passing_animation_gif(name)
    ctx.count("GIF files read back")
    with Image.open(name) as im:
        back = []
        for k in range(getattr(im, "n_frames", 1)):
            im.seek(k)
            back.append(im.convert("RGB"))
    got, want = story(back, st), story(frames, st)
    if got != want:
        raise Violation("wrong-gif", f"GIF of {len(back)} frames ({len(got)} different in a row) from {len(frames)} ({len(want)})")


def passed(cg, since):
    return [(m.sender_id, m.receiver_id) for m in cg.passed_messages[since:]]


# --- one graph at a time -----------------------------------------------------------------------------------------------------

@contextlib.contextmanager
def scene(scn, ctx):
    scratch = tempfile.mkdtemp(prefix="veroku-c11-")
    old, tmp = os.getcwd(), tempfile.tempdir
    os.chdir(scratch)
    tempfile.tempdir = os.path.join(scratch, "tmp")
    os.mkdir(tempfile.tempdir)
    try:
        with seams.set_order(scn["set_order"]), contextlib.redirect_stderr(io.StringIO()), studio.Studio() as st:
            st.on_fault = lambda name: None
            ctx.nontrivial = False
            yield st
            ctx.count("renderings", st.renderings)
    finally:
        os.chdir(old)
        tempfile.tempdir = tmp
        shutil.rmtree(scratch, ignore_errors=True)


def execute(scn, ctx):
    ctx.count(f"runs: {scn['kind']}")
    with scene(scn, ctx) as st:
        {"one": run_one, "threads": run_threads, "save": run_save}[scn["kind"]](scn, ctx, st)


def run_one(scn, ctx, st):
    spec = scn["spec"]
    truth = models.Truth(spec)
    if not truth.possible():
        raise Skip("impossible model")
    gauss = spec["family"] == "gauss"
    cg, twin = models.build_graph(spec), models.build_graph(spec)
    cg.debug = twin.debug = True
    names = ids(cg)
    neutral = drawn_by_show(cg, st)
    if neutral is None:
        raise Skip("display not observed")
    check_neutral(neutral, cg)
    replay = False      # the twin cannot stop where a failed animation did: it is told which messages to pass
    kept = []           # graphs that were copied, with their frames
    for op in scn["ops"]:
        ctx.step()
        nf, nm = len(cg.message_passing_animation_frames), len(cg.passed_messages)
        old_frames = list(cg.message_passing_animation_frames)
        ctx.count(f"op: {op[0]}")
        if op[0] == "process":
            cg.process_graph(max_iter=op[1], tol=op[2])
            if twin is not None:
                repeat(twin, cg, nm, op, replay)
            check_frames(cg.message_passing_animation_frames[nf:], [], neutral, names, st, True, "plain processing")
        elif op[0] == "animate":
            failed = animate(cg, op, st, ctx)
            msgs = passed(cg, nm)
            check_frames(cg.message_passing_animation_frames[nf:], msgs, neutral, names, st, not failed, f"animation {'(failed)' if failed else ''}")
            ctx.count("frames", len(cg.message_passing_animation_frames) - nf)
            ctx.nontrivial = ctx.nontrivial or len(cg.message_passing_animation_frames) > nf
            if failed == "interrupt":
                twin = None
            elif twin is not None:
                replay = replay or bool(failed)
                repeat(twin, cg, nm, op, replay)
            ctx.log(op, failed, msgs)
        elif op[0] == "show":
            if op[1]:
                st.arm(0, op[1])
                try:
                    cg.show()
                except Exception:  # pylint: disable=broad-except
                    if not st.disarm():
                        raise
                    ctx.count(f"fault: {op[1]} in show")
                else:
                    if st.disarm() and op[1] not in ("dot-torn", "dot-no-output"):   # what the renderer leaves is displayed as it is
                        raise Violation("error-swallowed", f"show(): {op[1]} happened, but there was no error")
        elif op[0] == "gif":
            check_gif(cg, st, "graph.gif", op[1], ctx)
        else:
            other = copy.deepcopy(cg) if op[1] == "deepcopy" else pickle.loads(pickle.dumps(cg))
            if op[2]:
                cg, other = other, cg
            kept.append([other, len(other.message_passing_animation_frames)])
        now = cg.message_passing_animation_frames[:nf]
        if len(now) != nf or any(st.source(a) != st.source(b) for a, b in zip(now, old_frames)):
            raise Violation("frames-changed", f"{op[0]} changed earlier frames")
        d = drawn_by_show(cg, st)
        if studio.lit(d, neutral):
            raise Violation("not-neutral", f"after {op[0]}: {studio.lit(d, neutral)} still highlighted")
        if twin is not None:
            c12.compare(c12.state_of(cg), dict(c12.state_of(twin), history=c12.state_of(cg)["history"]), f"animated and plain twin after {op[0]}")
    for other, nf in kept:
        if len(other.message_passing_animation_frames) != nf or studio.lit(drawn_by_show(other, st), neutral):
            raise Violation("copies-share-frames", "frames or colours of a copy changed with the other's")
    want = truth.joint()
    net = nets.Net(cg)
    if net.n_clusters == 1:
        cg.process_graph()
    given = spec["special"] if spec["special"] and any(None in f.get("logp", []) for f in spec["factors"]) else None
    if not spec["special"] and not spec.get("affine"):
        c02.check_joint(cg, want, ctx, 1e-7 if gauss else 1e-9, "at the end", given)
    if net.acyclic():
        cg.process_graph(tol=1e-3, max_iter=net.n_clusters)
        for _ in range(1 + bool(spec.get("affine"))):
            nets.fair_rounds(net, scn["perms"], ctx)
        c01.check_all(cg, truth, spec, scn, ctx, models.accuracy(spec), False, "at the end")


def repeat(twin, cg, nm, op, replay):
    """Let the twin do without animation what the graph did."""
    if not replay:
        twin.process_graph(max_iter=op[1], tol=op[2])
        if passed(twin, nm) != passed(cg, nm):
            raise Violation("inference-changed", f"messages {passed(cg, nm)}, without animation {passed(twin, nm)}")
        return
    net, names = nets.Net(twin), ids(twin)
    if net.n_clusters == 1:
        twin.process_graph()
    for a, b in passed(cg, nm):
        net.deliver(net.ends.index((names.index(a), names.index(b))))
        twin.num_messages_passed += 1   # process_graph counts


def animate(cg, op, st, ctx):
    """Animated processing; returns False, or how it failed."""
    fault = op[3]
    call = lambda: cg.process_graph(max_iter=op[1], tol=op[2], make_animation_gif=True)
    if fault is None:
        call()
        return False
    if fault[0] == "interrupt":
        trap = monitor.Interrupter(fault[1], EXC[fault[2]]("injected by the simulator"), graph_only=True)
        try:
            with monitor.Instants(trap):
                call()
        except BaseException as e:  # pylint: disable=broad-except
            if e is not trap.exc and not chained(e, trap.exc):
                raise
            ctx.count("fault: interrupt while animating")
            return "interrupt"
        if trap.fired:
            raise Violation("exception-swallowed", f"interrupted at {trap.fired}, but process_graph returned")
        return False
    st.arm(*fault)
    try:
        call()
    except Exception:  # pylint: disable=broad-except
        if not st.disarm():
            raise
        ctx.count(f"fault: {fault[1]}")
        return fault[1]
    if st.disarm():
        raise Violation("error-swallowed", f"{fault[1]} while rendering, but process_graph returned normally")
    return False


def chained(e, cause):
    while e is not None:
        if e is cause:
            return True
        e = e.__cause__ or e.__context__
    return False


# --- several graphs at a time ------------------------------------------------------------------------------------------------

def run_threads(scn, ctx, st):
    for spec in scn["specs"]:
        if not models.Truth(spec).possible():
            raise Skip("impossible model")

    def job(i):
        spec, todo = scn["specs"][i], scn["jobs"][i]

        def run():
            cg = models.build_graph(spec)
            cg.debug = True
            failed = False
            if todo["fault"]:
                st.arm(*todo["fault"])
            try:
                cg.process_graph(max_iter=todo["iters"], tol=todo["tol"], make_animation_gif=True)
            except Exception:  # pylint: disable=broad-except
                if not st.disarm():
                    raise
                failed = True
            else:
                if st.disarm():
                    raise Violation("error-swallowed", f"{todo['fault'][1]} while rendering, but process_graph returned normally")
            neutral = drawn_by_show(cg, st) if todo["show"] else None
            if todo["gif"]:
                check_gif(cg, st, f"graph{i}.gif", None, ctx)
            return cg, failed, neutral
        return run

    out = together([job(i) for i in range(len(scn["specs"]))], scn, ctx, st)
    for i, (cg, failed, shown) in enumerate(out):
        neutral = drawn_by_show(cg, st)
        if neutral is None:
            raise Skip("display not observed")
        check_neutral(neutral, cg)
        if shown is not None and studio.lit(shown, neutral):
            raise Violation("not-neutral", f"thread {i}: show() displayed highlights")
        if failed:
            ctx.count(f"fault: {scn['jobs'][i]['fault'][1]}")
        msgs = passed(cg, 0)
        frames = cg.message_passing_animation_frames
        check_frames(frames, msgs, neutral, ids(cg), st, not failed, f"thread {i}")
        ctx.count("frames", len(frames))
        ctx.log(i, failed, msgs)
        alone = models.build_graph(scn["specs"][i])
        alone.debug = True
        if failed:
            continue
        alone.process_graph(max_iter=scn["jobs"][i]["iters"], tol=scn["jobs"][i]["tol"])
        if passed(alone, 0) != msgs:
            raise Violation("inference-changed", f"thread {i}: messages {msgs}, without animation {passed(alone, 0)}")
        c12.compare(c12.state_of(cg), c12.state_of(alone), f"thread {i}: animated and alone without animation")
    if scn["together"]:
        cg = out[0][0]
        neutral = drawn_by_show(cg, st)
        got = together([lambda: drawn_by_show(cg, st)] * len(scn["specs"]), scn, ctx, st)
        for d in got:
            if studio.lit(d, neutral):
                raise Violation("not-neutral", "drawings made at the same time differ")
    ctx.nontrivial = True


def together(jobs, scn, ctx, st):
    def watch(sched):
        st.hook = sched.hook
    try:
        return c08.concurrently(jobs, scn, ctx, watch)
    finally:
        st.hook = None


def run_save(scn, ctx, st):
    """save_graph_image writes the image of the graph to a file of (about) the given name."""
    cg = models.build_graph(scn["spec"])
    neutral = drawn_by_show(cg, st)
    if neutral is None:
        raise Skip("display not observed")
    cg.save_graph_image("picture")
    found = [f for f in sorted(os.listdir(".")) if f.startswith("picture")]
    images = []
    for f in found:
        with open(f, "rb") as fd:
            if fd.read(4) == b"\x89PNG":
                images.append(f)
    if not images:
        raise Violation("image-not-saved", f"save_graph_image('picture') left {found}")
    with Image.open(images[0]) as im:
        if studio.lit(studio.Drawing(st.source(im), ids(cg)), neutral):
            raise Violation("wrong-image", "the saved image has highlights")
    ctx.nontrivial = True


# --- shrinking -------------------------------------------------------------------------------------------------------------

def shrink(scn):
    if scn["kind"] == "save":
        return
    if scn["kind"] == "one":
        for ops in nets.shrink_list(scn["ops"]):
            yield dict(scn, ops=ops)
        for i, op in enumerate(scn["ops"]):
            if op[0] == "animate" and op[3]:
                yield dict(scn, ops=scn["ops"][:i] + [op[:3] + [None]] + scn["ops"][i + 1:])
        for spec in models.shrink_spec(scn["spec"]):
            if spec["factors"]:
                yield dict(scn, spec=spec)
        return
    for s in nets.shrink_list(scn["schedule"]):
        yield dict(scn, schedule=s)
    if scn["together"]:
        yield dict(scn, together=False)
    for i, j in enumerate(scn["jobs"]):
        for key, value in (("fault", None), ("show", False), ("gif", False)):
            if j[key]:
                yield dict(scn, jobs=scn["jobs"][:i] + [dict(j, **{key: value})] + scn["jobs"][i + 1:])
    for i, spec in enumerate(scn["specs"]):
        for s in models.shrink_spec(spec):
            if s["factors"]:
                yield dict(scn, specs=scn["specs"][:i] + [s] + scn["specs"][i + 1:])
