#!/bin/bash
# A wrapper of rustc: the library is compiled with calls of the scheduler (sim/src/sched.rs)
# before every basic block, load and store.
case " $* " in
*" --crate-name kicad_parse_gen "*)
    exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc \
        -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores
    ;;
esac
exec "$@"
