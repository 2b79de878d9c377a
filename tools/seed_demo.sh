#!/bin/bash
# Appends the test module demo.rs to a scratch copy of the buildable part of /repo and runs it.
here=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d /tmp/vpdemo.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
. /opt/vp/partial/common.sh
[ -x "$P/slicer/target/release/slicer" ] || cargo build --quiet --release --offline --manifest-path "$P/slicer/Cargo.toml" || exit 2
mkdir -p "$S/crate" "$S/target/debug"
"$P/slicer/target/release/slicer" /repo "$P/omit.txt" "$S/crate" || exit 2
[ -f "$S/crate/Cargo.toml" ] || cp "$P/crate/Cargo.toml" "$S/crate/"
[ -f "$S/crate/Cargo.lock" ] || cp "$P/crate/Cargo.lock" "$S/crate/"
for d in deps build .fingerprint; do [ -d "$P/crate/target/debug/$d" ] && cp -a "$P/crate/target/debug/$d" "$S/target/debug/"; done
file=$(sed -n '1s,^// *module: *,,p' "$here/demo.rs")
{ echo; echo '#[cfg(test)] #[allow(unused, dead_code)] mod vpdemo {'; cat "$here/demo.rs"; echo '}'; } >> "$S/crate/$file"
export RUSTFLAGS="--cap-lints warn" CARGO_TARGET_DIR="$S/target" TMPDIR="$S"
cd "$S/crate" && timeout 280 cargo test --lib --offline -- vpdemo --test-threads 1 2>&1 | tee "$S/log" | tail -n 25
grep -q '^test result: ok. [1-9][0-9]* passed; 0 failed' "$S/log"
