#!/bin/bash
# Nothing to compile: checks import vrpy from /repo's working tree. Verify the interpreter and the simulator load.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
PYTHONPATH=. PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "from sim import exp, seams; seams.install(); print(seams.boot().__file__)"
