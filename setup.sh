#!/bin/bash
# Pre-builds the extension module(s) from /repo's working tree into /verif/.cache (git-ignored).
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -c "
from mc import build, rnd, sched
print(build.build_so('plain'))
print(rnd.prebuild())
print(sched.prebuild())
"
