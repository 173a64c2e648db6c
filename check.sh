#!/bin/bash
# check.sh <ID>: builds the harness against /repo's working tree, then decides one property.
cd "$(dirname "$0")" || exit 2
export GEOMCHECK_HOME="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p evidence target
log="target/build-$$.log"
if ! cargo build --release --offline --quiet --manifest-path harness/Cargo.toml >"$log" 2>&1; then
    tail -n 60 "$log" >&2
    echo "check.sh: the harness does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec target/release/geomcheck check "$1"
