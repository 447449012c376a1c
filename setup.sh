#!/bin/sh
# Builds every checking crate from the committed files, offline.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
export RUSTFLAGS="--cfg vp_mc -Awarnings"
for c in mc_bencode mc_common mc_dht mc_torrent; do
    [ -d "$here/$c" ] || continue
    cargo build --quiet --locked --offline --manifest-path "$here/$c/Cargo.toml"
done
