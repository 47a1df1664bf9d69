#!/bin/bash
# RUSTC_WRAPPER: adds edge callbacks to the crate under test and to the workload crate (and to no other).
rustc="$1"; shift
crate=
prev=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && crate="$a"
  prev="$a"
done
case "$crate" in
  fem_2d|work)
    lint=(); [ "$crate" = fem_2d ] && lint=(--cap-lints allow)
    exec "$rustc" "$@" "${lint[@]}" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
