#!/bin/bash
# Runs simpy/driver.py under the simulator runtime.
cd "$(dirname "$0")/.." || exit 2
export SIMPY_BUILD=$PWD/build PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONMALLOC=pymalloc RUST_BACKTRACE=0
unset PYTHONPATH PYTHONHOME PYTHONSTARTUP
FIXED=
setarch -R true 2>/dev/null && FIXED="setarch -R"
LD_PRELOAD=$PWD/build/libsimrt.so exec $FIXED /opt/vp/venv/bin/python -S -s -B simpy/driver.py "$@"
