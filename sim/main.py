"""Command line: sim.main <property> [--tier quick|thorough] [--replay FILE]"""
import argparse
import os
import sys

from . import boot


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--worker", help="internal: scenarios on stdin, results on stdout")
    args = ap.parse_args()
    boot.ensure_env()
    boot.load()
    from . import core
    if args.replay:
        return core.replay(args.property, args.replay)
    if args.worker:
        return core.get_module(args.property).worker(args.worker)
    seed = int(os.environ.get("VERIF_SEED") or "1")
    return core.check(args.property, args.tier, seed)


if __name__ == "__main__":
    sys.exit(main())
