#!/bin/sh
# Cargo calls this instead of rustc: the crate under test and the libraries it computes with get a
# callback per basic block, and the crate under test one per load and store; everything else is compiled as is.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
more=""
[ "$name" = nmea_parser ] && more="-Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores"
case "$name" in
  nmea_parser|bitvec|chrono|regex|regex_automata|regex_syntax|aho_corasick)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=1 $more ;;
esac
exec "$rustc" "$@"
