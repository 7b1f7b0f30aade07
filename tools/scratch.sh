#!/bin/bash
# scratch.sh PATCH|REV:<commit>|none "C01 C02 ..."|all  -- runs checks against a patched scratch copy of /repo (under /tmp/vs)
mkdir -p /tmp/vs/root; exec 8>/tmp/vs/lock; flock 8
rm -rf /tmp/vs/repo; mkdir -p /tmp/vs/repo /tmp/vs/harness
git -C /repo archive HEAD | tar x -C /tmp/vs/repo
cd /tmp/vs/repo && git init -q . 2>/dev/null
case "$1" in none) ;; REV:*) git -C /repo show "${1#REV:}" | git apply -R || exit 9 ;; *) git apply "$1" || exit 9 ;; esac
rsync -a --delete --exclude target /verif/harness/ /tmp/vs/harness/ 2>/dev/null || { rm -rf /tmp/vs/harness/src /tmp/vs/harness/deep /tmp/vs/harness/fast; cp -a /verif/harness/src /verif/harness/deep /verif/harness/fast /verif/harness/Cargo.* /tmp/vs/harness/; }
sed -i 's#path = "/repo"#path = "/tmp/vs/repo"#' /tmp/vs/harness/Cargo.toml
ids="$2"; [ "$ids" = all ] && ids=$(seq -f C%02g 1 28)
cd /tmp/vs/harness; export CARGO_TARGET_DIR=/tmp/vs/target VERIF_ROOT=/tmp/vs/root VERIF_SRC=/tmp/vs/repo/src
rm -rf /tmp/vs/root/corpus; [ -n "$CORPUS" ] && cp -a /verif/corpus /tmp/vs/root/
cargo clean --release --offline -p concordance -p deep -p fast >/dev/null 2>&1
b=""; for i in $ids; do b="$b --bin ${i,,}"; done
cargo build --release --offline $b >/tmp/vs/build.log 2>&1 || { tail -30 /tmp/vs/build.log; exit 8; }
for i in $ids; do out=$(timeout ${T:-600} /tmp/vs/target/release/${i,,} check 2>&1); rc=$?; echo "$i rc=$rc $(echo "$out" | grep -m1 -v VIOLATION | cut -c1-${W:-230})"; done
