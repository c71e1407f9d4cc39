#!/bin/bash
# ./check.sh <property>   (VERIF_SEED, VERIF_TIER from the environment)
# Builds the harness against /repo's working tree and runs one property's monitor.
cd "$(dirname "$0")" || exit 3
root=$PWD
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$root/target RUSTFLAGS="--cfg tokio_unstable --cfg rkv_hooks -Awarnings" CARGO_INCREMENTAL=0
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} RKV_ROOT=$root
log=$(mktemp /tmp/rkv-build.XXXXXX)
build() {
    cargo build --offline --manifest-path harness/Cargo.toml --bins || return
    # the example binary, from its own source, for the property about it
    [ "$1" != C24 ] || cargo build --offline --manifest-path proxybin/Cargo.toml
}
if ! build "$1" >"$log" 2>&1; then
    tail -40 "$log"; rm -f "$log"
    echo "BUILD FAILED property=$1"
    exit 3
fi
rm -f "$log"
limit=840; [ "$VERIF_TIER" = thorough ] && limit=7000
mkdir -p "$root/evidence" "$root/replay"
timeout -k 5 $limit "$root/target/debug/rkv" "$1" 2> "$root/replay/$1.stderr"
rc=$?
if [ $rc -eq 134 ] || [ $rc -eq 139 ]; then
    # the process the library runs in was brought down: a panic while another
    # one unwinds, an exhausted stack, an allocation of an absurd size
    grep '^\[panic\]\|overflowed\|allocation' "$root/replay/$1.stderr" | tail -5
    echo "  $1 [crash:process] the process was brought down (exit $rc)"
    echo "VIOLATION property=$1 replay=$root/replay/$1.stderr"
    exit 1
fi
if [ $rc -ge 124 ]; then
    tail -5 "$root/replay/$1.stderr"
    echo "INCONCLUSIVE property=$1: the run did not finish in $limit s (exit $rc)"
    exit 2
fi
[ $rc -ne 0 ] && tail -15 "$root/replay/$1.stderr"
exit $rc
