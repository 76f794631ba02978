#!/bin/bash
# Builds the simulators from the current tree of /repo. Exit 0, or 4 when it does not build.
set -u
root=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR=$root/target CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
mkdir -p "$root/target"
exec 9>"$root/target/.lock"
flock 9
# Cargo trusts mtimes; a tree restored with old mtimes must still be rebuilt.
stamp=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$root/target/.stamp" 2>/dev/null)" != "$stamp" ]; then
  rm -f "$root/target/.stamp"
  (cd "$root/sim" && cargo clean --release --offline -p pest3 -p pest3_core -p pest3_derive -p pest3_generator -p pest3_meta >/dev/null 2>&1)
fi
cd "$root/sim" || exit 4
if ! cargo build --release --offline >"$root/target/build.log" 2>&1; then
  grep -E -A8 '^error' "$root/target/build.log" | head -60
  echo "build failed" >&2
  exit 4
fi
echo "$stamp" > "$root/target/.stamp"
