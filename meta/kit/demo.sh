#!/bin/bash
# Builds main.rs against the repository in the current directory (offline, with
# the stand-ins in kit.tgz) and runs it: 0 = the property held.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
tar xzf "$here/kit.tgz" -C "$work" || exit 3
cp "$here/main.rs" "$work/demo/src/main.rs"
sed "s#@REPO@#$repo#" "$work/demo/Cargo.toml.in" > "$work/demo/Cargo.toml"
if rustup toolchain list 2>/dev/null | grep -q '^1\.90\.0'; then export RUSTUP_TOOLCHAIN=1.90.0; fi
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}"
export RUSTFLAGS="--cfg ragu_sim --check-cfg cfg(ragu_sim) --check-cfg cfg(ragu_liar) --cap-lints allow"
grep -q liar "$here/main.rs" && RUSTFLAGS="$RUSTFLAGS --cfg ragu_liar"
cd "$work/demo" && cargo build --offline -q || exit 4
timeout 200 "$CARGO_TARGET_DIR/debug/demo"
