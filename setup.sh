#!/bin/bash
# Builds the checkers (offline) from the committed files and /repo's working tree.
set -u
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" CARGO_TERM_COLOR=never
mkdir -p work evidence
for c in mc; do
  [ -d "$c" ] && { (cd "$c" && cargo build --release --offline --quiet) || exit 1; }
done
exit 0
