#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]   run one property's simulated check
# check.sh replay <PROPERTY> <FILE>      replay one recorded violation
# check.sh build                         only build the harness
# Exit: 0 property held on everything explored, 1 violation, 2 harness error.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" CARGO_NET_OFFLINE=true
if rustup toolchain list 2>/dev/null | grep -q '^1\.90\.0'; then export RUSTUP_TOOLCHAIN=1.90.0; fi
export CARGO_TARGET_DIR="${HARNESS_TARGET:-$here/target}"
unset CARGO_ENCODED_RUSTFLAGS
flags="--cfg ragu_sim --check-cfg cfg(ragu_sim) --check-cfg cfg(ragu_liar) --cap-lints allow"
log="$(mktemp)"
build() { RUSTFLAGS="$flags $1" cargo build --offline --manifest-path "$here/harness/Cargo.toml" >"$log" 2>&1; }
if ! build "--cfg ragu_liar"; then
  # The hooks of the lying prover (C11) reach further into the code than the
  # others: without them every other property can still be decided.
  cp "$log" "$log.first"
  export CARGO_TARGET_DIR="$CARGO_TARGET_DIR/plain"
  if [ "${1:-}" = C11 ] || ! build ""; then
    echo "check.sh: the harness does not build against /repo" >&2
    grep -E '^(error|warning: unused)' -A12 "$log.first" | head -80 >&2
    rm -f "$log" "$log.first"
    exit 2
  fi
  rm -f "$log.first"
fi
rm -f "$log"
bin="$CARGO_TARGET_DIR/debug/harness"
case "${1:-}" in
  build) exit 0 ;;
  replay) "$bin" exec "$2" "$3"; exit $? ;;
  "") echo "usage: check.sh <PROPERTY> [quick|thorough]" >&2; exit 2 ;;
esac
HARNESS_SCRATCH="$(mktemp -d)"; export HARNESS_SCRATCH
"$bin" check "$1" ${2:+"$2"}
rc=$?
rm -rf "$HARNESS_SCRATCH"
exit $rc
