#!/bin/bash
# RUSTC_WRAPPER: adds LLVM edge instrumentation to the lunify crate only. Every
# executed edge of lunify calls __sanitizer_cov_trace_pc_guard, which the
# simulator defines (src/seams.rs): its step clock and preemption point.
rustc=$1; shift
for ((i = 1; i <= $#; i++)); do
    if [ "${!i}" = "--crate-name" ]; then j=$((i + 1)); name=${!j}; fi
done
if [ "$name" = "lunify" ]; then
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=1
fi
exec "$rustc" "$@"
