#!/bin/bash
# rustc wrapper: coverage counters for the library and its parsers, not for the generators
rustc=$1; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = --crate-name ] && name=$a; prev=$a; done
case "$name" in
ruplicity|tar|time)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table \
        -Cllvm-args=-sanitizer-coverage-trace-compares ;;
esac
exec "$rustc" "$@"
