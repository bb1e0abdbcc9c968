#!/bin/bash
# sanitize.sh thread|address: builds the harness and the standard library with a sanitizer, into /verif/target/<kind>
# (not committed). A toolchain that cannot do it is no failure: the check then says that nothing was watched this way.
here=$(cd "$(dirname "$0")" && pwd)
kind=$1
export CARGO_TARGET_DIR="$here/target/$kind" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTFLAGS="-Zsanitizer=$kind"
cd "$here/harness" || exit 0
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.lock" && flock 9
bin="$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/debug/harness"
now=$( (cd /repo && find Cargo.toml build.rs src -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
stamp="$CARGO_TARGET_DIR/.repo-contents"
if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
    cargo +nightly clean --offline -q -p scilla-parser -p harness --target x86_64-unknown-linux-gnu >/dev/null 2>&1
    rm -f "$bin"
fi
rm -f "$stamp"
if timeout -k 5 "${2:-500}" cargo +nightly build --offline --locked -q -Zbuild-std --target x86_64-unknown-linux-gnu >"$CARGO_TARGET_DIR/build.log" 2>&1; then
    echo "$now" >"$stamp"
else
    rm -f "$bin"
    echo "no build with -Zsanitizer=$kind: $(tail -1 "$CARGO_TARGET_DIR/build.log")" >&2
fi
exit 0
