#!/bin/bash
# Usage: check.sh ID quick|thorough   or   check.sh --replay FILE
# Builds the monitors against /repo's working tree, then runs one check.
cd "$(dirname "$0")" || exit 2
export VMON_VERIF="$PWD" VMON_REPO="${VMON_REPO:-/repo}" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
mkdir -p target
# Beside it, the library as its users build it, without the checks of the compiler.
(cd harness && exec cargo build --offline --profile plain --target-dir ../target) >target/plain.log 2>&1 &
if ! (cd harness && cargo build --offline --release --target-dir ../target) >target/build.log 2>&1; then
    wait
    tail -40 target/build.log >&2
    echo "inconclusive: the build failed" >&2
    exit 2
fi
if ! wait $!; then
    tail -40 target/plain.log >&2
    echo "inconclusive: the plain build failed" >&2
    exit 2
fi
export VMON_PLAIN="$PWD/target/plain/vmon"
if [ "$1" = --build ]; then exit 0; fi
# C24 also runs under ThreadSanitizer, where the nightly compiler builds it.
case "$1 $2" in
"C24 "* | "--replay "*/C24-*)
    if (cd harness && RUSTFLAGS=-Zsanitizer=thread timeout 400 cargo +nightly build --offline --release -Zbuild-std \
        --target x86_64-unknown-linux-gnu --target-dir ../target/tsan) >target/tsan.log 2>&1; then
        export VMON_TSAN="$PWD/target/tsan/x86_64-unknown-linux-gnu/release/vmon"
    fi
    ;;
esac
if [ "$1" = --replay ]; then exec target/release/vmon replay "$2"; fi
exec target/release/vmon run "$1" "$2" "${VERIF_SEED:-1}"
