#!/bin/sh
# RUSTC_WRAPPER for the "sched" build: instruments the library under test (and the crate that
# instantiates its generic functions) with SanitizerCoverage, counts basic blocks of the hash
# implementation it calls, and tells the simulator to count copied bytes. The rest is compiled as is.
rustc="$1"; shift
case " $* " in
  *" --crate-name libgoldilocks "*|*" --crate-name ops "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads \
      -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  *" --crate-name keccak "*|*" --crate-name sha3 "*|*" --crate-name block_buffer "*|*" --crate-name digest "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *" --crate-name edsim "*) exec "$rustc" "$@" --cfg sched_build ;;
  *) exec "$rustc" "$@" ;;
esac
