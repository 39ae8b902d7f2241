#!/bin/bash
# check.sh <property> quick|thorough        run one check
# check.sh <property> replay <file>         re-run one recorded case
# check.sh build                            build everything (setup)
# Exit: 0 held, 1 violation (VIOLATION line printed), 2 the check itself failed.
set -u
export VERIF_DIR="${VERIF_DIR:-$(cd "$(dirname "$0")" && pwd)}"
cd "$VERIF_DIR/mc" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET

# The harness is rebuilt from the current contents of /repo.  Cargo decides by
# modification time; contents decide here, so that a restored or back-dated file counts.
build() { # <target dir> <profile> <bin> <cargo args...>
    local dir="$1" profile="$2" bin="$3"; shift 3
    mkdir -p "$dir"
    exec 9>"$dir/.lock"; flock 9
    local h
    h=$( { find /repo/src /repo/Cargo.toml /repo/build.rs src Cargo.toml Cargo.lock -type f 2>/dev/null \
           | LC_ALL=C sort | xargs sha256sum; rustc --version; } | sha256sum | cut -d' ' -f1)
    if [ "$(cat "$dir/.stamp" 2>/dev/null)" != "$h" ]; then
        rm -rf "$dir"/*/.fingerprint/derivre-* "$dir"/*/.fingerprint/mc-*
        echo "$h" >"$dir/.stamp"
    fi
    if ! cargo build --profile "$profile" --offline --quiet --target-dir "$dir" --bin "$bin" "$@" >"$dir/build-$bin.log" 2>&1; then
        grep -E -A6 '^error' "$dir/build-$bin.log" | head -60 >&2
        echo "check.sh: building $bin against /repo failed" >&2
        exit 2
    fi
    flock -u 9; exec 9>&-
}

# The low-level checks and the build without compression have debug assertions on, the others
# have them off, like the builds users run: what only happens inside a debug assertion is seen
# to be missing, and a debug assertion that fails is seen too.
bin_of() {
    case "$1" in
        C12|C15|C19|C21|C23|C26|C28|C29) echo mcraw ;;
        *) echo mc ;;
    esac
}

if [ "${1:-}" = build ]; then
    build "$VERIF_DIR/mc/target" release mc
    build "$VERIF_DIR/mc/target" checked mcraw
    build "$VERIF_DIR/mc/target-nc" checked mc --no-default-features
    echo built; exit 0
fi

id="${1:?property}"; mode="${2:?quick|thorough|replay}"
bin=$(bin_of "$id")
case $bin in mcraw) profile=checked ;; *) profile=release ;; esac
build "$VERIF_DIR/mc/target" $profile "$bin"
exe="$VERIF_DIR/mc/target/$profile/$bin"
ulimit -v $((26 * 1024 * 1024)) 2>/dev/null
ulimit -c 0
case "$mode:$id" in quick:C09) : "${MC_BUDGET_S:=240}" ;; quick:*) : "${MC_BUDGET_S:=500}" ;; *) : "${MC_BUDGET_S:=3000}" ;; esac
export MC_BUDGET_S

if [ "$mode" = replay ]; then
    if [ "$id" = C09 ] && grep -q '^# build: no-compress' "$3"; then
        build "$VERIF_DIR/mc/target-nc" checked mc --no-default-features
        exe="$VERIF_DIR/mc/target-nc/checked/mc"
    fi
    if grep -q '^# build: checked' "$3"; then
        build "$VERIF_DIR/mc/target" checked "$bin"
        exe="$VERIF_DIR/mc/target/checked/$bin"
    fi
    exec "$exe" "$id" replay "$3"
fi

if [ "$mode" = thorough ] && [ $profile = release ]; then
    # the quick exploration once more with debug assertions
    build "$VERIF_DIR/mc/target" checked "$bin"
    echo "with debug assertions, quick bounds:"
    MC_EVIDENCE_NAME="$id-checked" MC_REPLAY_TAG=dbg "$VERIF_DIR/mc/target/checked/$bin" "$id" run quick; rc=$?
    rm -f "$VERIF_DIR/evidence/$id-checked.json"
    [ $rc != 0 ] && exit $rc
    echo "thorough bounds:"
fi

if [ "$id" = C09 ]; then
    # the same cases against the build without alphabet compression
    build "$VERIF_DIR/mc/target-nc" checked mc --no-default-features
    echo "without the compress feature:"
    MC_EVIDENCE_NAME=C09-nocompress MC_REPLAY_TAG=nc "$VERIF_DIR/mc/target-nc/checked/mc" C09 run "$mode"
    rc1=$?
    echo "with the compress feature:"
    "$exe" C09 run "$mode"; rc2=$?
    python3 - "$VERIF_DIR/evidence" <<'P' || exit 2
import json,sys
d=sys.argv[1]
a=json.load(open(d+'/C09.json')); b=json.load(open(d+'/C09-nocompress.json'))
a['coverage']['without_compress_feature']=b['coverage']
for k in ('states','transitions','traces_validated_against_impl'): a['coverage'][k]+=b['coverage'][k]
a['coverage']['exhaustive']=a['coverage']['exhaustive'] and b['coverage']['exhaustive']
a['violations']+=b['violations']; a['wall_s']+=b['wall_s']
json.dump(a,open(d+'/C09.json','w'),indent=1)
P
    rm -f "$VERIF_DIR/evidence/C09-nocompress.json"
    [ $rc1 = 1 ] && exit 1
    [ $rc2 != 0 ] && exit $rc2
    exit $rc1
fi
exec "$exe" "$id" run "$mode"
