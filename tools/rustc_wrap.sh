#!/bin/sh
# RUSTC_WRAPPER: compiles the code under test (and the thin layer that instantiates its generics) with
# SanitizerCoverage, so that every basic-block edge, load and store is a step of the simulator.
case " $* " in
*" --crate-name unicode_intervals "* | *" --crate-name simops "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
        -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
    ;;
esac
exec "$@"
