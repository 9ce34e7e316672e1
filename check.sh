#!/bin/bash
# check.sh ID [--replay FILE | --only PART]: builds the harness and the command from /repo's working tree, runs one check
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD CARGO_NET_OFFLINE=true
build() {
  local log; log=$(mktemp)
  if ! "$@" >"$log" 2>&1; then tail -40 "$log" >&2; rm -f "$log"; exit 2; fi
  rm -f "$log"
}
REPO=${VERIF_REPO:-/repo}
build cargo build --offline --quiet --manifest-path harness/Cargo.toml --target-dir target/harness
build cargo build --offline --quiet --manifest-path "$REPO/Cargo.toml" -p cmd --target-dir target/cli
[ "$1" = setup ] && exit 0
exec target/harness/debug/harness "$@"
