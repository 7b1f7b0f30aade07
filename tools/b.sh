#!/bin/bash
# build and run one check: b.sh c12
export CARGO_TARGET_DIR=/verif/harness/target
cd /verif/harness
cargo build --release --offline --bin $1 --message-format short 2>&1 | grep -E "^src.*(error|warning)|^error" | head -40
[ ${PIPESTATUS[0]} = 0 ] || exit 3
./target/release/$1 check; echo "rc $?"; [ -z "$2" ] || python3 ../tools/ev.py ${1^^}
