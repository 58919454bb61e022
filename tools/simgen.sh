#!/bin/bash
# Builds the seams of the table generator's simulation and runs simgen/driver.py.
cd "$(dirname "$0")/.." || exit 2
export SIM_BUILD=$PWD/build PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH PYTHONHOME PYTHONSTARTUP
mkdir -p build/fake
{ gcc -O2 -Wall -Wextra -fPIC -shared -o build/libsimfs.so.new simgen/simfs.c -ldl && mv build/libsimfs.so.new build/libsimfs.so &&
    gcc -O2 -Wall -Wextra -o build/fake/ucd-generate.new simgen/ucd_generate.c && mv build/fake/ucd-generate.new build/fake/ucd-generate; } ||
    { echo "HARNESS ERROR: the build failed"; exit 2; }
LD_PRELOAD=$PWD/build/libsimfs.so exec /opt/vp/venv/bin/python -S -s -B simgen/driver.py "$@"
