#!/bin/sh
# usage: check.sh <property id>; VERIF_SEED and VERIF_TIER select the seed and the depth.
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true
[ "$1" = build ] || case "$1" in C[0-9][0-9]) ;; *) echo "usage: check.sh ID" >&2; exit 2 ;; esac
cd "$here/sim" || exit 2
log="$here/sim/target/build-$$.log"
mkdir -p "$here/sim/target"
# the crate under test is always rebuilt: file times say nothing about a copied tree
find "$here/sim/target/release/.fingerprint" -maxdepth 1 -name 'nmea-parser-*' -exec rm -rf {} + 2>/dev/null
if ! cargo build --release --offline >"$log" 2>&1; then
  cat "$log"; rm -f "$log"
  echo "harness error: build failed"
  exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
unset TZ RUST_BACKTRACE
exec "$here/sim/target/release/nmea-sim" check "$1" --seed "${VERIF_SEED:-1}" --tier "${VERIF_TIER:-quick}" \
  --out "$here/evidence" --findings "$here/known-findings.txt"
