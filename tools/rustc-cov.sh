#!/bin/bash
# RUSTC_WRAPPER: adds SanitizerCoverage instrumentation to the code under test only.
n=""; p=""
for a in "$@"; do [ "$p" = "--crate-name" ] && n="$a"; p="$a"; done
if [ "$n" = minifier ] || [ "$n" = sutapi ]; then
  exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-inline-8bit-counters
fi
exec "$@"
