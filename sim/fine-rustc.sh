#!/bin/bash
# RUSTC_WRAPPER: compiles the library with a call into the simulator
# (below/src/fine.rs) on every edge of its control flow, and at every load and
# store. What is generic in the library is compiled along with the simulator,
# where this happens at every function (before any is inlined) and store.
prev=
for a in "$@"; do
    if [ "$prev" = "--crate-name" ]; then
        case "$a" in
        nondestructive)
            exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-trace-pc \
                -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-prune-blocks=0 \
                -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
            ;;
        ndsim)
            exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-trace-pc \
                -Cllvm-args=-sanitizer-coverage-level=1 -Cllvm-args=-sanitizer-coverage-trace-stores
            ;;
        esac
    fi
    prev="$a"
done
exec "$@"
