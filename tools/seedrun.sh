#!/bin/bash
# seedrun.sh <id> C01 C02..   run quick checks against a planted bug, in a scratch copy of /repo and /verif
# (the registered checks always run against /repo itself; this is for development only)
set -u
# <id> can also be the path of a diff (a refactoring on which the checks have to stay quiet)
diff="/verif/seeded/$1/patch.diff"; id="$1"; [ -f "$1" ] && { diff="$(realpath "$1")"; id="$(basename "$1" .diff)"; }; shift
S=/tmp/sr.$id; rm -rf "$S"; mkdir -p "$S/verif"
cp -a /repo "$S/repo"; git -C "$S/repo" checkout -q -- .
git -C "$S/repo" apply "$diff" || exit 1
cp -a /verif/check.sh /verif/known_findings.txt "$S/verif/"
mkdir "$S/verif/evidence" "$S/verif/mc"; cp -a /verif/mc/src /verif/mc/Cargo.toml /verif/mc/Cargo.lock "$S/verif/mc/"
[ -d /verif/mc/.cargo ] && cp -a /verif/mc/.cargo "$S/verif/mc/"
sed -i "s#/repo#$S/repo#g" "$S/verif/check.sh" "$S/verif/mc/Cargo.toml"
find "$S/verif/mc/src" -name '*.rs' -exec grep -l '"/repo' {} + | xargs -r sed -i "s#\"/repo#\"$S/repo#g"
for p in "$@"; do
  t0=$(date +%s)
  VERIF_DIR="$S/verif" timeout 1500 bash "$S/verif/check.sh" $p ${TIER:-quick} >/tmp/seed-$id-$p.log 2>&1; rc=$?
  echo "  $id $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 -E '^VIOLATION|panic|error' /tmp/seed-$id-$p.log | cut -c1-200)"
done
rm -rf "/tmp/sr.$id"
