#!/bin/bash
# check.sh <property id> <quick|thorough>: build the harness against /repo's working tree, run one check.
set -u
ID="$1"; TIER="${2:-quick}"
. "$(dirname "$0")/env.sh"
cd "$(dirname "$0")/harness" || exit 3

mkdir -p /verif/target /verif/evidence
if ! cargo build --offline --bins >/verif/target/build.log 2>&1; then
  echo "check: the harness does not build against /repo's tree" >&2
  grep -E "^error" -A8 /verif/target/build.log | head -40 >&2
  exit 3
fi
exec /verif/target/debug/mc "$ID" "$TIER"
