#!/bin/bash
# check.sh PROPERTY: rebuilds the simulator from /repo's working tree and decides one property.
# VERIF_SEED (default 1), VERIF_TIER (quick, thorough).
cd "$(dirname "$0")/.." || exit 2
log=$(mktemp) || exit 2
if ! tools/build.sh >"$log" 2>&1; then
  echo "the simulator does not build from /repo:" >&2
  tail -40 "$log" >&2
  rm -f "$log"
  exit 2
fi
rm -f "$log"
exec target/debug/svmsim check "$1"
