#!/bin/bash
# Build the simulator's libc seam into /verif/build (git-ignored). Offline; needs gcc only.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python - <<'P'
import sys; sys.path.insert(0, '.'); sys.dont_write_bytecode = True
from sim import build
print(build.ensure())
P
