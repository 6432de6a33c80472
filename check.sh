#!/bin/bash
# check.sh build | check.sh C01..C19   (VERIF_SEED, VERIF_TIER from the environment)
# Builds the simulator against /repo's current working tree and runs one check.
cd "$(dirname "$0")/sim" || exit 2
mkdir -p target
exec 9>target/.verif-lock
flock 9
# cargo decides by modification time; a tree restored with old times must not be missed
sum=$(find /repo/src /repo/Cargo.toml rustc-wrap.sh .cargo -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat target/.verif-sum 2>/dev/null)" != "$sum" ]; then
  cargo clean --release --offline -p dockerfile-parser >/dev/null 2>&1
  rm -f target/.verif-sum
fi
if ! cargo build --release --offline --locked >target/build.log 2>&1; then
  grep -E '^error' -A12 target/build.log | head -60 >&2
  tail -3 target/build.log >&2
  echo "HARNESS ERROR: the simulator does not build against /repo" >&2
  exit 2
fi
echo "$sum" >target/.verif-sum
flock -u 9
[ "$1" = build ] && exit 0
exec ./target/release/dst check "$1"
