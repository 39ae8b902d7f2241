#!/bin/bash
# seedtest.sh <id>            confirm a planted bug in a scratch copy: applies, builds, tests pass,
#                             demo passes without and fails with it
# seedtest.sh <id> C01 C02..  also run these checks (quick) against /repo with it applied
set -u
id="$1"; shift
d=/verif/seeded/$id
if [ -z "${SKIP_CONFIRM:-}" ]; then
S=/tmp/seed.$id; rm -rf "$S"; mkdir -p "$S"; cp -a /repo "$S/repo"; git -C "$S/repo" checkout -q -- .; cp -a "$d" "$S/demo"
(cd "$S/repo" && timeout 300 bash "$S/demo/demo.sh" >"$S/demo0.log" 2>&1); r0=$?
git -C "$S/repo" apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
(cd "$S/repo" && rm -rf target/debug/.fingerprint/derivre-* && timeout 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >"$S/test.log" 2>&1); rt=$?
(cd "$S/repo" && timeout 300 bash "$S/demo/demo.sh" >"$S/demo1.log" 2>&1); r1=$?
echo "$id: demo clean=$r0 (want 0), tests=$rt (want 0), demo patched=$r1 (want !=0): $(tail -1 $S/demo1.log | cut -c1-150)"
[ $rt = 0 ] || grep -E 'FAILED|failed|panicked|error' "$S/test.log" | head
[ $r0 = 0 ] || tail -20 "$S/demo0.log"
rm -rf "/tmp/seed.$id"
fi
[ $# = 0 ] && exit 0
[ -n "$(git -C /repo status --short)" ] && { echo "/repo dirty"; exit 1; }
git -C /repo apply "$d/patch.diff" || exit 1
trap 'git -C /repo checkout -- .' EXIT
for p in "$@"; do
  t0=$(date +%s)
  timeout 900 bash /verif/check.sh $p quick >/tmp/seed-$id-$p.log 2>&1; rc=$?
  echo "  $id $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 -E '^VIOLATION|panic|error' /tmp/seed-$id-$p.log | cut -c1-200)"
done
