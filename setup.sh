#!/bin/bash
# Nothing to build: the checks are Python and compile veroku from /repo's working tree on every run. Smoke test only.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
exec /opt/venv/bin/python -W ignore -c '
from sim import boot
boot.load()
from sim import core
print("veroku loaded from", boot.REPO)'
