#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds the checker against /repo's working tree and decides one property.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
if ls -d "$HOME"/.rustup/toolchains/nightly-2026-10-30* >/dev/null 2>&1 || ls -d /root/.rustup/toolchains/nightly-2026-10-30* >/dev/null 2>&1; then export RUSTUP_TOOLCHAIN=nightly-2026-10-30; fi
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_INCREMENTAL
build() { (cd mc && cargo build --release --offline) > target/build.log 2>&1; }
mkdir -p target evidence
if ! build; then
    echo "check: the checker does not build against the current tree" >&2
    tail -40 target/build.log >&2
    exit 2
fi
flags=$(grep -m1 '^flags' /proc/cpuinfo)
has() { for f in "$@"; do [[ " ${flags#*: } " == *" $f "* ]] || return 1; done; }
if { [ "$1" = P04 ] || [ "$1" = build ]; } && has avx2 bmi1 bmi2 fma movbe abm f16c; then
    # the intrinsic implementation first, with its own evidence; the main run below adds its counts
    (cd mc && RUSTFLAGS="-C target-cpu=x86-64-v3" cargo build --release --offline --features simd-x86 --target-dir ../target/x86) > target/build-x86.log 2>&1 || { echo "check: the simd-x86 build fails" >&2; tail -40 target/build-x86.log >&2; exit 2; }
    [ "$1" = build ] && { target/release/mc prebuild cli; exit $?; }
    mkdir -p target/x86-out
    rm -rf "$PWD/target/x86-out/evidence"
    cp known_findings.txt target/x86-out/
    VERIF_DIR="$PWD/target/x86-out" target/x86/release/mc check "$@"
    rc=$?
    if [ $rc != 0 ]; then mkdir -p evidence/replay; cp target/x86-out/evidence/P04.json evidence/P04.json; exit $rc; fi
fi
[ "$1" = build ] && { target/release/mc prebuild cli; exit $?; }
exec target/release/mc check "$@"
