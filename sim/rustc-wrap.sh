#!/bin/bash
# Adds the scheduling/memory seams (LLVM SanitizerCoverage callbacks, and
# ThreadSanitizer's for atomic accesses and copies) to the
# library under test and to the adapter that calls it, and to nothing else.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
    [ "$prev" = "--crate-name" ] && name="$a"
    prev="$a"
done
# SIM_PCS=1: also a table of the blocks' addresses, for --edges
[ -n "$SIM_PCS" ] && set -- "$@" -C link-dead-code -C llvm-args=-sanitizer-coverage-pc-table
case "$name" in
    tofas|tofas_extras|simops)
	exec "$rustc" "$@" -C 'passes=forceattrs function(tsan) sancov-module' \
	     -C llvm-args=-force-attribute=sanitize_thread -C llvm-args=-tsan-instrument-memory-accesses=0 \
	     -C llvm-args=-tsan-instrument-func-entry-exit=0 \
	     -C llvm-args=-sanitizer-coverage-level=3 \
	     -C llvm-args=-sanitizer-coverage-trace-pc-guard \
	     -C llvm-args=-sanitizer-coverage-trace-loads \
	     -C llvm-args=-sanitizer-coverage-trace-stores ;;
    *)  exec "$rustc" "$@" ;;
esac
