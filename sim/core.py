"""
Simulation driver.

A property module provides
    gen(rng, tier) -> scenario            (JSON; every random decision of the run is in it)
    execute(scenario, ctx)                (runs the real code; raises Violation; pure function of scenario and code)
    shrink(scenario) -> iterator          (smaller scenarios)
    PLAN = {"quick": n, "thorough": n}    (number of simulated runs)
    RULE, ASSUMPTIONS, COMPONENTS
A run is identified by (VERIF_SEED, property, index). Runs are executed in batches, every batch in a process of its own
that is forked from a pristine parent, so that a run depends on nothing but the scenarios before it in its batch.
"""
import collections
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback
import multiprocessing as mp

from . import boot

RUN_LIMIT_S = 100          # wall clock limit of a single run: only reached by a run that makes no progress
BATCH = 16


class Violation(Exception):
    """The property does not hold on this run."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = str(detail)[:2000]


class Skip(Exception):
    """The scenario turned out to be outside of the property's domain (counted)."""


class HarnessError(Exception):
    """A mistake of the machinery."""


class NoProgress(BaseException):
    """Raised by the per-run alarm."""


class Ctx:
    """What a run reports back."""

    def __init__(self):
        self.counts = collections.Counter()
        self.hash = hashlib.sha256()
        self.trace = []
        self.steps = 0
        self.keep_trace = False

    def count(self, name, n=1):
        self.counts[name] += n

    def log(self, *items):
        text = repr(items)
        self.hash.update(text.encode())
        if self.keep_trace:
            self.trace.append(text)

    def step(self, n=1):
        self.steps += n


def derive_rng(seed, prop, index):
    digest = hashlib.sha256(f"{seed}/{prop}/{index}".encode()).digest()
    return random.Random(int.from_bytes(digest[:8], "big"))


def in_repo(tb):
    """Whether any frame of a traceback is in the code under test."""
    root = os.path.realpath(boot.REPO) + os.sep
    return any(os.path.realpath(f.filename).startswith(root) for f in traceback.extract_tb(tb))


def _alarm(_sig, _frame):
    raise NoProgress()


def run_scenario(mod, scn, keep_trace=False):
    """Execute one scenario in this process and classify the outcome."""
    ctx = Ctx()
    ctx.keep_trace = keep_trace
    res = {"status": "ok"}
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(RUN_LIMIT_S)
    try:
        mod.execute(scn, ctx)
    except Violation as v:
        res = {"status": "violation", "kind": v.kind, "detail": v.detail}
    except Skip as s:
        res = {"status": "skip", "detail": str(s)}
    except NoProgress:
        res = {"status": "violation", "kind": "no-progress", "detail": f"run did not finish within {RUN_LIMIT_S} s"}
    except HarnessError:
        res = {"status": "harness", "detail": traceback.format_exc()[-3000:]}
    except BaseException as e:  # pylint: disable=broad-except
        if in_repo(e.__traceback__):
            where = [f for f in traceback.extract_tb(e.__traceback__)
                     if os.path.realpath(f.filename).startswith(os.path.realpath(boot.REPO) + os.sep)][-1]
            res = {"status": "violation", "kind": f"unexpected-{type(e).__name__}",
                   "detail": f"{type(e).__name__}: {e} (in {where.name})"[:1500]}
        else:
            res = {"status": "harness", "detail": traceback.format_exc()[-3000:]}
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    ctx.log(res["status"], res.get("kind"))
    res.update(digest=ctx.hash.hexdigest()[:16], counts=dict(ctx.counts), steps=ctx.steps,
               key=getattr(ctx, "key", None), nontrivial=bool(getattr(ctx, "nontrivial", True)))
    if keep_trace:
        res["trace"] = ctx.trace
    return res


# --- processes -------------------------------------------------------------------------------------------------------

def _child(fn, args, conn):
    try:
        out = ("ok", fn(*args))
    except BaseException:  # pylint: disable=broad-except
        out = ("error", traceback.format_exc()[-4000:])
    try:
        conn.send(out)
        conn.close()
    finally:
        sys.stdout.flush()
        os._exit(0)


class Forks:
    """Runs jobs, each in a process forked from this (pristine) one, at most `width` at a time."""

    def __init__(self, width):
        self.ctx = mp.get_context("fork")
        self.width = width

    def map(self, fn, jobs, deadline=None, stop=None):
        """Yield (index, result or None) in completion order. Stops scheduling after the deadline or stop()."""
        todo = collections.deque(enumerate(jobs))
        live = {}
        while todo or live:
            while todo and len(live) < self.width:
                if (deadline is not None and time.time() > deadline) or (stop is not None and stop()):
                    todo.clear()
                    break
                i, args = todo.popleft()
                recv, send = self.ctx.Pipe(duplex=False)
                proc = self.ctx.Process(target=_child, args=(fn, args, send))
                proc.start()
                send.close()
                live[recv] = (i, proc)
            if not live:
                break
            for recv in mp.connection.wait(list(live), timeout=5):
                i, proc = live.pop(recv)
                try:
                    status, value = recv.recv()
                except EOFError:
                    status, value = "error", f"worker died (exit code {proc.exitcode})"
                recv.close()
                proc.join()
                yield i, status, value


def width():
    n = os.environ.get("VEROKU_SIM_JOBS")
    return int(n) if n else max(1, min(8, os.cpu_count() or 1))


def batch_job(mod, seed, tier, start, count):
    """All runs of a batch; stops at the first unlisted violation (later runs of the batch would not be independent of it)."""
    out = []
    findings = known_findings(mod.ID)
    for index in range(start, start + count):
        scn = mod.gen(derive_rng(seed, mod.ID, index), tier)
        res = run_scenario(mod, scn)
        res["index"] = index
        if res["status"] != "ok" or index % 97 == 0:
            res["scenario"] = scn
        out.append(res)
        if res["status"] == "harness":
            break
        if res["status"] == "violation" and not any(matches_finding(m, res, scn, mod) for m, _ in findings):
            break
    return out


def session_job(mod, scenarios, keep_trace=False):
    """Execute scenarios in order; the outcome is that of the last one (or of the first that violates)."""
    res = None
    for scn in scenarios:
        res = run_scenario(mod, scn, keep_trace)
        if res["status"] == "violation":
            return res
    return res


def run_session(forks, mod, scenarios, keep_trace=False):
    for _, status, value in forks.map(session_job, [(mod, scenarios, keep_trace)]):
        if status == "ok":
            return value
        return {"status": "harness", "detail": value}
    return None


def minimise(forks, mod, scenarios, kind, budget_s):
    """Greedy minimisation of the last scenario (and of the ones before it), keeping the kind of violation."""
    end = time.time() + budget_s
    tried = 0

    def still(cands):
        # evaluates candidates in parallel, returns the first (in order) that still violates
        nonlocal tried
        results = {}
        for i, status, value in forks.map(session_job, [(mod, c, False) for c in cands]):
            tried += 1
            results[i] = status == "ok" and value["status"] == "violation" and value["kind"] == kind
        for i in range(len(cands)):
            if results.get(i):
                return cands[i]
        return None

    # is the last scenario enough on its own?
    if len(scenarios) > 1:
        alone = still([[scenarios[-1]]])
        if alone is not None:
            scenarios = alone
        else:
            changed = True
            while changed and time.time() < end and len(scenarios) > 1:
                changed = False
                cands = [scenarios[:i] + scenarios[i + 1:] for i in range(len(scenarios) - 1)]
                best = still(cands)
                if best is not None:
                    scenarios, changed = best, True
    improved = True
    while improved and time.time() < end:
        improved = False
        chunk = []
        for cand in mod.shrink(scenarios[-1]):
            chunk.append(scenarios[:-1] + [cand])
            if len(chunk) == forks.width:
                best = still(chunk)
                chunk = []
                if best is not None:
                    scenarios, improved = best, True
                    break
                if time.time() > end:
                    break
        if chunk and not improved and time.time() < end:
            best = still(chunk)
            if best is not None:
                scenarios, improved = best, True
    return scenarios, tried


# --- known findings --------------------------------------------------------------------------------------------------

def known_findings(prop):
    """Entries of the form `open: property=<id> match=<json> <what fails>` (fixed: entries suppress nothing)."""
    path = os.path.join(boot.VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith(f"open: property={prop} "):
                    rest = line.split(" ", 2)[2].strip()
                    dec = json.JSONDecoder()
                    assert rest.startswith("match=")
                    match, end = dec.raw_decode(rest[6:])
                    out.append((match, rest[6 + end:].strip()))
    return out


def matches_finding(match, res, scn, mod):
    if match.get("kind") != res["kind"]:
        return False
    sig = getattr(mod, "signature", lambda s, r: {})(scn, res)
    return all(sig.get(k) == v for k, v in match.items() if k != "kind")


# --- entry points ----------------------------------------------------------------------------------------------------

def get_module(prop):
    mod = importlib.import_module(f"sim.props.{prop.lower()}")
    if hasattr(mod, "prepare"):
        mod.prepare()
    return mod


def check(prop, tier, seed):
    t0 = time.time()
    mod = get_module(prop)
    if hasattr(mod, "check"):
        return mod.check(tier, seed)
    total = int(os.environ.get("VEROKU_SIM_RUNS") or mod.PLAN[tier])
    cap = float(os.environ.get("VEROKU_SIM_CAP") or (150 if tier == "quick" else 3 * 3600))
    batch = getattr(mod, "BATCH", BATCH)
    forks = Forks(width())
    jobs = [(mod, seed, tier, s, min(batch, total - s)) for s in range(0, total, batch)]
    violations, harness, known = [], [], collections.Counter()
    counts, keys, samples = collections.Counter(), set(), []
    evaluations = nontrivial = steps = skipped = 0
    digest_acc = {}
    findings = known_findings(prop)

    for _, status, value in forks.map(batch_job, jobs, deadline=t0 + cap, stop=lambda: len(violations) >= 1 or harness):
        if status != "ok":
            harness.append(value)
            continue
        for res in value:
            if res["status"] == "harness":
                harness.append(res["detail"])
                continue
            if res["status"] == "skip":
                skipped += 1
                counts["skipped: " + res["detail"]] += 1
                continue
            evaluations += 1
            steps += res["steps"]
            counts.update(res["counts"])
            digest_acc[res["index"]] = res["digest"]
            if res["nontrivial"]:
                nontrivial += 1
                keys.add(res["key"] or res["digest"])
            if res["status"] == "violation":
                hit = [w for m, w in findings if matches_finding(m, res, res["scenario"], mod)]
                if hit:
                    known[hit[0]] += 1
                else:
                    violations.append(res)
            elif "scenario" in res and len(samples) < 3 and len(json.dumps(res["scenario"])) < 6000:
                samples.append({"index": res["index"], "digest": res["digest"], "scenario": res["scenario"]})
    wall_search = time.time() - t0

    # same seed, same run: re-execute some runs in new processes and compare the event digests
    redo = []
    if not violations and not harness:
        pick = sorted(digest_acc)[:: max(1, len(digest_acc) // 16)][:16]
        wanted = {i: digest_acc[i] for i in pick}
        for _, status, value in forks.map(batch_job, [(mod, seed, tier, i, 1) for i in pick]):
            if status == "ok" and value:
                redo.append(value[0]["digest"] == wanted[value[0]["index"]])
    acc = hashlib.sha256("".join(digest_acc[i] for i in sorted(digest_acc)).encode()).hexdigest()[:16]

    for what, n in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {what} ({n} runs)")
    code = 0
    replay_path = None
    if violations:
        code = 1
        violations.sort(key=lambda r: r["index"])
        replay_path = report(forks, mod, prop, tier, seed, violations[0], batch)
    elif harness:
        code = 2
        print(f"harness error in {prop}:\n{harness[0]}", file=sys.stderr)
    elif evaluations == 0:
        code = 2
        print(f"nothing was evaluated for {prop}", file=sys.stderr)

    wall = time.time() - t0
    per_hour = int(evaluations / max(wall_search, 1e-9) * 3600)
    coverage = {
        "evaluations": evaluations,
        "distinct_nontrivial": len(keys),
        "rule": mod.RULE,
        "samples": samples or [{"note": "no passing sample recorded"}],
        "simulated_runs_per_hour": per_hour,
        "seeds_per_hour": per_hour,
        "simulated_steps": steps,
        "simulated_time": getattr(mod, "SIM_TIME", "the code under test reads no clock; simulated time is counted in "
                                                    "scheduler steps (simulated_steps)"),
        "events_and_faults_injected": {k: v for k, v in sorted(counts.items())},
        "skipped_scenarios": skipped,
        "planned_runs": total,
        "stopped_early": evaluations + skipped < total,
        "digest_of_all_runs": acc,
        "runs_reexecuted_for_determinism": len(redo),
        "reexecutions_identical": sum(redo),
        "real_components": mod.COMPONENTS["real"],
        "stub_components": mod.COMPONENTS["stub"],
        "seed_rule": "run i of property P under VERIF_SEED s uses sha256(s/P/i)",
    }
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
        "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 3), "violations": len(violations),
    }
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(boot.VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    print(f"{prop} {tier} seed={seed}: {evaluations} runs ({len(keys)} distinct non-trivial, {skipped} skipped), "
          f"{steps} steps, {wall:.1f} s, digest {acc}, redo {sum(redo)}/{len(redo)}, "
          f"violations {len(violations)}, known {sum(known.values())}")
    if replay_path:
        print(f"VIOLATION property={prop} replay={replay_path}")
    return code


def report(forks, mod, prop, tier, seed, res, batch):
    """Minimise, write the replay file and confirm it in a new interpreter."""
    index = res["index"]
    start = index - index % batch
    scenarios = [mod.gen(derive_rng(seed, mod.ID, i), tier) for i in range(start, index + 1)]
    print(f"{prop}: run {index} of seed {seed} violates: {res['kind']}: {res['detail'][:400]}")
    budget = float(os.environ.get("VEROKU_SIM_SHRINK_S") or (25 if tier == "quick" else 120))
    small, tried = minimise(forks, mod, scenarios, res["kind"], budget)
    final = run_session(forks, mod, small, keep_trace=True)
    if not (final and final["status"] == "violation" and final["kind"] == res["kind"]):
        small, final = scenarios, run_session(forks, mod, scenarios, keep_trace=True)
    folder = os.path.join(boot.VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{prop}-seed{seed}-run{index}.json")
    with open(path, "w") as f:
        json.dump({
            "property": prop, "verif_seed": seed, "tier": tier, "run": index,
            "violation": {"kind": final.get("kind"), "detail": final.get("detail")},
            "digest": final.get("digest"),
            "scenarios": small,
            "minimisation": {"candidates_tried": tried, "original_size": len(json.dumps(scenarios)),
                             "size": len(json.dumps(small))},
            "trace": (final.get("trace") or [])[-400:],
            "how_to_replay": f"cd /verif && ./check {prop} --replay {path}",
        }, f, indent=1)
    env = {k: v for k, v in os.environ.items() if k != "VEROKU_SIM_BOOTED"}
    out = subprocess.run([sys.executable, "-m", "sim.main", prop, "--replay", path], cwd=boot.VERIF, env=env,
                         capture_output=True, text=True, check=False)
    print(f"{prop}: minimised {len(json.dumps(scenarios))} -> {len(json.dumps(small))} bytes of scenario; "
          f"{final.get('kind')}: {str(final.get('detail'))[:600]}")
    print(f"{prop}: replay in a new interpreter: {'reproduced exactly' if out.returncode == 1 else 'NOT reproduced'}")
    return path


def replay(prop, path):
    """Exit 1 if the recorded violation is reproduced exactly."""
    with open(path) as f:
        rec = json.load(f)
    mod = get_module(prop)
    forks = Forks(width())
    res = run_session(forks, mod, rec["scenarios"], keep_trace=True)
    for line in (res.get("trace") or [])[-60:]:
        print("  ", line)
    print(f"{prop} replay: {res['status']} {res.get('kind')}: {res.get('detail')}")
    same = res["status"] == "violation" and res["kind"] == rec["violation"]["kind"]
    exact = same and res["digest"] == rec["digest"]
    print(f"recorded {rec['violation']['kind']} digest {rec['digest']}; got digest {res['digest']}; exact={exact}")
    if same:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0
