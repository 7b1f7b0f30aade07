#!/bin/bash
# check.sh C07 -- builds the check of one property against /repo's current working tree and runs it.
# Exit 0: held on everything explored; 1: violation (with a VIOLATION line); 3: the check could not be built or run.
# check.sh C07 replay FILE -- runs one saved case.   check.sh build -- builds all checks.
cd "$(dirname "$0")/harness" || exit 3
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
ulimit -c 0
mkdir -p "$CARGO_TARGET_DIR" || exit 3
what="$1"; shift
if [ "$what" = build ]; then bins=--bins; else
    bin=$(echo "$what" | tr 'A-Z' 'a-z'); bins="--bin $bin"
    [ -f "src/bin/$bin.rs" ] || { echo "no check for $what" >&2; exit 3; }
fi
build() (
    flock 9
    # Rebuild by content, whatever the time stamps say
    now=$( { find /repo/src /repo/Cargo.toml src deep fast Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum; rustc -V; } | sha256sum)
    if [ "$now" != "$(cat target/.built-from 2>/dev/null)" ]; then
        rm -f target/.built-from
        cargo clean --release --offline -p concordance -p harness -p deep -p fast >/dev/null 2>&1
        echo "$now" > target/.built-from
    fi
    cargo build --release --offline --locked $bins
) 9>target/.lock
log=$(build 2>&1) || { printf '%s\n' "$log" | tail -60 >&2; echo "cannot build the check against /repo" >&2; exit 3; }
[ "$what" = build ] && exit 0
export VERIF_ROOT="${VERIF_ROOT:-$(cd .. && pwd)}"
export VERIF_SRC=/repo/src
if [ $# = 0 ]; then set -- check; fi
"./target/release/$bin" "$@"
