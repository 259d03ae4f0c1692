#!/bin/bash
# RUSTC_WRAPPER: husk and hv-ct are compiled with trace instrumentation, nothing else is.
p=
for a in "$@"; do
  if [ "$p" = --crate-name ]; then
    case "$a" in
      husk|hv_ct)
        exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
          -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads \
          -Cllvm-args=-sanitizer-coverage-trace-stores -Cllvm-args=-sanitizer-coverage-trace-geps \
          -Cllvm-args=-sanitizer-coverage-trace-divs;;
    esac
  fi
  p=$a
done
exec "$@"
