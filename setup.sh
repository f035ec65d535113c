#!/bin/bash
# Builds every checker once (each check rebuilds what has changed).
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$here"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target"
mkdir -p "$here/target" "$here/evidence"
cargo build --offline --profile release --manifest-path "$here/mc/Cargo.toml" --bins || exit 1
cargo build --offline --profile fast --manifest-path "$here/mc/Cargo.toml" --bin c10 || exit 1
