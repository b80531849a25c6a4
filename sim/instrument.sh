#!/bin/sh
# rustc wrapper: the library and the simulator (which instantiates the library's generic code) get a
# call at every basic block and before every load and store; atomic accesses become calls
name=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name=$a
  prev=$a
done
case "$name" in
  quadtree|qtsim) exec "$@" -C "passes=function(tsan) sancov-module" \
    -C llvm-args=-tsan-instrument-func-entry-exit=0 \
    -C llvm-args=-sanitizer-coverage-level=2 \
    -C llvm-args=-sanitizer-coverage-trace-pc -C llvm-args=-sanitizer-coverage-prune-blocks=0 \
    -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores;;
  *) exec "$@";;
esac
