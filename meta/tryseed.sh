#!/bin/bash
# tryseed.sh ID [check]: in a scratch copy of /repo, the demo on the clean and the patched tree, the
# repository's build and tests on the patched one, and (with "check") the property's check.
set -u
v="$(cd "$(dirname "$0")/.." && pwd)"; s="$v/seeded/$1"
r=/tmp/seedrepo; mkdir -p $r; rsync -a --delete --exclude target /repo/ $r/
git -C $r checkout -q -- . 
export DEMO_TARGET=/tmp/seedtarget
if [ -z "${SKIP_DEMO:-}" ]; then
(cd $r && bash $s/demo.sh) >/tmp/demo.clean 2>&1; c=$?
git -C $r apply $s/patch.diff || { echo "$1 PATCH DOES NOT APPLY"; exit 1; }
(cd $r && bash $s/demo.sh) >/tmp/demo.bug 2>&1; b=$?
echo "$1 demo clean=$c bug=$b $(tail -1 /tmp/demo.bug | cut -c1-150)"
else git -C $r apply $s/patch.diff || exit 1; fi
for f in $(git -C $r diff --name-only | grep '\.rs$'); do rustfmt --edition 2024 < $r/$f >/dev/null || echo "$f does not parse"; done
if [ "${2:-}" = check ]; then
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  h=/tmp/seedharness; mkdir -p $h; rsync -a --delete $v/harness $v/shims $v/check.sh $v/known-findings.txt $h/
  sed -i "s#/repo/crates#$r/crates#" $h/harness/Cargo.toml
  for q in ${PROPS:-$p}; do
  (cd $h && HARNESS_TARGET=/tmp/seedht bash ./check.sh $q quick) >/tmp/check.out 2>&1; echo "$1 check $q rc=$? $(grep -c VIOLATION /tmp/check.out) $(grep -h '' /tmp/check.out | grep -i -A1 'violation' | head -2 | cut -c1-200)"
  done
fi
git -C $r checkout -q -- .
