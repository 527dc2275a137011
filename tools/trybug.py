#!/usr/bin/env python3
"""
Try planted changes: tools/trybug.py [--no-check] ID...
For each: the patch applies to /repo's HEAD, changes lines of the original repository, the stable tests pass, the demonstration
exits 0 without and nonzero with the patch, and the check of its property reports it. Everything happens in scratch copies.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "a319090"
STABLE = {x.rsplit(".", 1)[1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]}



def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(["bash", "-c", cmd], cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, check=False)
    return p.returncode, p.stdout + p.stderr


def original_lines_changed(patch):
    """Number of removed lines of the patch that come from the original repository."""
    n, path, line, ranges = 0, None, 0, []
    for text in open(patch):
        if text.startswith("--- a/"):
            path = text[6:].strip()
        m = re.match(r"@@ -(\d+)", text)
        if m:
            line = int(m.group(1))
        elif text.startswith("-") and not text.startswith("---"):
            ranges.append((path, line))
            line += 1
        elif text.startswith(" "):
            line += 1
    for path, line in ranges:
        _, out = sh(f"git blame -l -L {line},{line} HEAD -- {path}", "/repo")
        n += BASE in out.split()[0] if out else 0
    return n


def trybug(name, with_check=True):
    d = os.path.join(HERE, "seeded", name)
    meta = json.load(open(os.path.join(d, "meta.json")))
    work = tempfile.mkdtemp(prefix=f"bug-{name}-")
    out = {"id": name, "property": meta["property"]}
    try:
        copy = os.path.join(work, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        demo = os.path.join(work, "demo")
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        out["demo clean"], text = sh(f"bash {demo}/demo.sh", copy, {"PYTHONPATH": copy}, 300)
        if out["demo clean"]:
            out["demo clean output"] = text[-600:]
        rc, text = sh(f"git apply {d}/patch.diff", copy)
        out["applies"] = rc == 0
        if rc:
            out["apply output"] = text
            return out
        out["original lines"] = original_lines_changed(f"{d}/patch.diff")
        out["demo patched"], text = sh(f"bash {demo}/demo.sh", copy, {"PYTHONPATH": copy}, 300)
        out["demo says"] = text.strip().splitlines()[-1:] if text.strip() else ""
        _, text = sh(". /opt/vp/env.sh; \"$PY\" -m pytest -q -W ignore -p no:cacheprovider -p no:importnb --timeout=300 "
                     "--continue-on-collection-errors veroku | tail -8", copy, {"PYTHONPATH": copy})
        out["tests"] = text.strip().splitlines()[-1]
        broken = set(re.findall(r"^(?:FAILED|ERROR) \S*?::(\w+::\w+)", text, re.M)) & STABLE
        if broken or "passed" not in out["tests"]:
            out["tests output"] = text
        if with_check:
            rc, text = sh(f"./check {meta['property']}", HERE, {"VEROKU_REPO": copy, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            out["check"] = rc
            out["check says"] = [t[:300] for t in text.splitlines() if " violates: " in t or "VIOLATION" in t or "minimised" in t]
            if rc not in (0, 1):
                out["check output"] = text[-1500:]
        out["good"] = (out["demo clean"] == 0 and out["demo patched"] != 0 and "tests output" not in out
                       and out["original lines"] > 0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


if __name__ == "__main__":
    names = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    with ThreadPoolExecutor(2) as pool:
        for res in pool.map(lambda n: trybug(n, "--no-check" not in sys.argv), names):
            print(json.dumps(res, indent=1), flush=True)
