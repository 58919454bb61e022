#!/bin/bash
# Builds everything the checks use; the checks build what they need themselves if this has not run.
cd "$(dirname "$0")" || exit 2
mkdir -p build evidence replays
bash tools/build_rust.sh && bash tools/build_py.sh
