#!/bin/bash
# usage: check.sh <property> [quick|thorough]   or   check.sh replay <file>   or   check.sh build
# Builds the harness against /repo's working tree and runs the check of one property as an unprivileged user.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh >/dev/null 2>&1; fi
cd "$here/harness" || exit 2
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true
export VERIF_SEED="${VERIF_SEED:-1}"
tier="${2:-${VERIF_TIER:-quick}}"
log="$(mktemp /tmp/verif-build.XXXXXX)" || exit 2
build() {
    if ! (cd "$here/$1" && cargo build --offline --quiet) >"$log" 2>&1; then
        tail -n 60 "$log"
        rm -f "$log"
        echo "check.sh: $1 does not build"
        exit 2
    fi
}
build harness
# the same program with corries built without its default feature, for C34
nv=""
if [ "$1" = C34 ] || [ "$1" = build ] || { [ "$1" = replay ] && grep -q '"property": *"C34"' "$2"; }; then
    build harness-nv
    nv=1
fi
rm -f "$log"
[ "$1" = build ] && exit 0

scratch="$(mktemp -d /tmp/verif-run.XXXXXX)" || exit 2
case "$scratch" in /tmp/verif-run.??????) ;; *) exit 2 ;; esac
cleanup() { rm -rf --one-file-system -- "$scratch"; }
trap cleanup EXIT
mkdir "$scratch/work" "$scratch/out"
cp "$here/target/debug/verif" "$scratch/verif"
[ -n "$nv" ] && cp "$here/target/debug/verif-nv" "$scratch/verif-nv"
cp "$here/known_findings.txt" "$scratch/known_findings.txt"
export VERIF_KNOWN="$scratch/known_findings.txt" HOME="$scratch/work" TMPDIR="$scratch/work"
export RAYON_NUM_THREADS=2 OPENBLAS_NUM_THREADS=1
unset RUST_BACKTRACE RUST_LIB_BACKTRACE
user=(setpriv --reuid=65534 --regid=65534 --clear-groups --no-new-privs)
if [ "$1" = replay ]; then
    cp "$2" "$scratch/replay.json"
    chown -R 65534:65534 "$scratch"
    (cd "$scratch/work" && "${user[@]}" "$scratch/verif" replay "$scratch/replay.json" "$scratch/work")
    exit $?
fi
chown -R 65534:65534 "$scratch"
chmod 755 "$scratch"
(cd "$scratch/work" && "${user[@]}" "$scratch/verif" run "$1" "$tier" "$scratch/work" "$scratch/out" "$here/replays")
code=$?
mkdir -p "$here/evidence" "$here/replays"
[ -f "$scratch/out/$1.json" ] && cp "$scratch/out/$1.json" "$here/evidence/$1.json"
if [ -d "$scratch/out/replays" ]; then cp "$scratch"/out/replays/*.json "$here/replays/" 2>/dev/null; fi
exit $code
