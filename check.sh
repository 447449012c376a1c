#!/bin/sh
# check.sh PROPERTY [quick|thorough] [--replay FILE] [--only INDEX]
# Builds the crate that checks PROPERTY from the current tree of /repo and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
case "$1" in
B*) crate=mc_bencode ;;
C*) crate=mc_common ;;
D*) crate=mc_dht ;;
M* | T* | U* | X*) crate=mc_torrent ;;
*) echo "unknown property $1" >&2; exit 3 ;;
esac
export CARGO_TARGET_DIR="$here/target"
export CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg vp_mc -Awarnings"
export RUSTUP_TOOLCHAIN=stable
export VERIF_DIR="$here"
prop=$1
shift
case "${1:-}" in
quick | thorough)
    export VERIF_TIER="$1"
    shift
    ;;
esac
# cargo decides by file times what to rebuild; a copied tree may carry any
# times, so whatever was built from other contents is forgotten first
mkdir -p "$here/target"
now=$(cd /repo && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
if [ "$(cat "$here/target/built-from" 2>/dev/null)" != "$now" ]; then
    for p in bencode common dht torrent-rs mc_bencode mc_common mc_dht mc_torrent; do
        rm -rf "$here/target/debug/.fingerprint/$p"-*
    done
    echo "$now" >"$here/target/built-from"
fi
log=$(mktemp)
trap 'rm -f "$log"' EXIT
if ! cargo build --quiet --locked --offline --manifest-path "$here/$crate/Cargo.toml" >"$log" 2>&1; then
    cat "$log" >&2
    echo "error: $crate does not build against /repo" >&2
    exit 3
fi
"$here/target/debug/$crate" "$prop" "$@"
