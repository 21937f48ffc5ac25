#!/bin/bash
# run.sh <PROPERTY> [quick|thorough]: builds the monitors against /repo's working tree and runs one.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="${VERIF_DIR:-$here}"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/harness/target"
unset RUSTFLAGS
pid="${1:?property}"
tier="${2:-${VERIF_TIER:-quick}}"
base=/tmp
if [ -d /dev/shm ] && [ -w /dev/shm ]; then base=/dev/shm; fi
scratch="$(mktemp -d "$base/trane-mon.XXXXXX")" || exit 3
trap 'rm -rf -- "$scratch"' EXIT
export MON_SCRATCH="$scratch" TMPDIR="$scratch" HOME="$scratch/home" CARGO_HOME="${CARGO_HOME:-/root/.cargo}" RUSTUP_HOME="${RUSTUP_HOME:-/root/.rustup}"
mkdir -p "$scratch/home" "$here/evidence"
# Cargo compares modification times only; a source file put back with an older one must still count.
now="$(cd /repo && find src Cargo.toml Cargo.lock -type f -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)"
fresh() { # <target directory> <directory of the profile>
    if [ ! -f "$1/repo.sha" ] || [ "$(cat "$1/repo.sha")" != "$now" ]; then
        rm -rf -- "$1/$2"/.fingerprint/trane-*
        rm -f -- "$1/repo.sha"
    fi
}
fresh "$CARGO_TARGET_DIR" release
if ! cargo build --release --locked --manifest-path "$here/harness/Cargo.toml" >"$scratch/build.log" 2>&1; then
    tail -40 "$scratch/build.log"
    echo "HARNESS-ERROR the monitors do not build against /repo"
    exit 3
fi
echo "$now" >"$CARGO_TARGET_DIR/repo.sha"
# The check of concurrent use also needs everything, the standard library and SQLite included, under
# ThreadSanitizer.
if [ "$pid" = C15 ] || [ "$pid" = --build ]; then
    tsan="$here/harness/target-tsan"
    host=x86_64-unknown-linux-gnu
    fresh "$tsan" "$host/release"
    if ! env RUSTUP_TOOLCHAIN="nightly-$host" CC=clang CFLAGS="-fsanitize=thread -g1" RUSTFLAGS="-Zsanitizer=thread" \
        RUSTC_WRAPPER="$here/tools/tsan-rustc.sh" \
        CARGO_TARGET_DIR="$tsan" CARGO_PROFILE_RELEASE_DEBUG=1 \
        cargo build -Zbuild-std --target "$host" --release --locked --manifest-path "$here/harness/Cargo.toml" >"$scratch/build.log" 2>&1; then
        tail -40 "$scratch/build.log"
        echo "HARNESS-ERROR the monitors do not build with ThreadSanitizer"
        exit 3
    fi
    echo "$now" >"$tsan/repo.sha"
fi
[ "$pid" = --build ] && exit 0
"$CARGO_TARGET_DIR/release/mon" "$pid" "$tier"
exit $?
