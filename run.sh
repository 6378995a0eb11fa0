#!/bin/bash
# Usage: run.sh build | run.sh check <ID> [quick|thorough] | run.sh replay <file>
# Builds the harness against /repo's current tree and runs one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${WEEDLE_REPO:-/repo}
export CARGO_TARGET_DIR=$here/harness/target CARGO_NET_OFFLINE=true
export RUSTFLAGS="-Awarnings"
unset RUSTC_WRAPPER CARGO_BUILD_TARGET

build() {
    cd "$here/harness" || return 2
    local stamp
    stamp=$(cd "$repo" && { cat Cargo.toml; find src -type f | LC_ALL=C sort | while read -r f; do echo "$f"; cat "$f"; done; } | sha256sum)
    # file times decide nothing: another tree means a fresh build of weedle
    if [ -d target ] && [ "$(cat target/tree.stamp 2>/dev/null)" != "$stamp" ]; then
        cargo clean --offline --release -p weedle >/dev/null 2>&1 || rm -rf "$here/harness/target"
    fi
    local log
    log=$(cargo build --offline --locked --release 2>&1) || { echo "$log" | tail -60 >&2; return 1; }
    echo "$stamp" >target/tree.stamp
}

case "${1:-}" in
build) build || exit 2 ;;
check)
    build || { echo "$2: the harness does not build against $repo" >&2; exit 2; }
    export VERIF_TIER=${3:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1} PBT_OUT=${PBT_OUT:-$here} PBT_FINDINGS=$here/known_findings.txt
    exec "$here/harness/target/release/pbt" check "$2"
    ;;
replay)
    file=$(realpath "$2")
    build || exit 2
    exec "$here/harness/target/release/pbt" replay "$file"
    ;;
*) echo "usage: $0 build | check <ID> [quick|thorough] | replay <file>" >&2; exit 2 ;;
esac
