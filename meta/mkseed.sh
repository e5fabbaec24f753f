#!/bin/bash
# mkseed.sh ID: completes /verif/seeded/ID (patch.diff, main.rs, meta.json) with demo.sh and kit.tgz.
set -eu
v="$(cd "$(dirname "$0")/.." && pwd)"; s="$v/seeded/$1"
t=$(mktemp -d)
cp -r "$v/shims" "$t/shims"; find "$t" -name target -prune -exec rm -r {} +
cp -r "$v/meta/kit/demo" "$t/demo"; cp "$v/harness/Cargo.lock" "$t/demo/Cargo.lock" 
sed -i 's/^name = "harness"/name = "demo"/' "$t/demo/Cargo.lock"
tar --sort=name --mtime=@0 --owner=0 --group=0 --numeric-owner -C "$t" -cf - shims demo | gzip -n > "$s/kit.tgz"
cp "$v/meta/kit/demo.sh" "$s/demo.sh"
rm -r "$t"
