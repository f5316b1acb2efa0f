#!/bin/bash
rustc="$1"; shift
args=" $* "
if [[ "$args" == *" --crate-name whitespace "* ]]; then
  exec "$rustc" "$@" -C "passes=function(tsan) sancov-module" -C llvm-args=-tsan-instrument-func-entry-exit=0 -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard
fi
exec "$rustc" "$@"
