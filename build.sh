#!/bin/bash
# Builds the harness against /repo's current tree, offline, into /verif/target (not committed).
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS
cd "$here/harness" || exit 2
mkdir -p "$here/target"
exec 9>"$here/target/.lock" && flock 9
# What is built is decided by contents, not by times of modification.
now=$( (cd /repo && find Cargo.toml build.rs src -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
stamp="$here/target/.repo-contents"
if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ] && [ -d "$here/target/debug" ]; then
    cargo clean --offline -q -p scilla-parser -p harness >/dev/null 2>&1
fi
rm -f "$stamp"
log="$here/target/build.log"
if ! cargo build --offline --locked -q >"$log" 2>&1; then
    cat "$log" >&2
    echo "build failed" >&2
    exit 2
fi
echo "$now" >"$stamp"
