#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Rebuilds the checker from /repo's working tree, then decides one property.
set -u
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" CARGO_TERM_COLOR=never
export MC_ROOT="$PWD"
[ -n "${2:-}" ] && export VERIF_TIER="$2"
mkdir -p work
if ! (cd mc && cargo build --release --offline --quiet) >work/build.log 2>&1; then
  tail -50 work/build.log
  echo "build failed"
  exit 2
fi
exec target/release/mc check "$1"
