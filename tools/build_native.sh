#!/bin/bash
# build_native.sh [js] : with js those of js/ instead, into build/native-js.
# The native replay programs (dev and release) of the harnesses + /repo.
set -e
. "$(dirname "$0")/lib.sh"
if [ "$1" = js ]; then
( flock 7
mkdir -p "$B/native-js"
forget "$B/native-js" "$B/native-js-rel"
CARGO_TARGET_DIR="$B/native-js" cargo build --offline --manifest-path "$V/js/Cargo.toml" --bin jsreplay > "$B/native-js.log" 2>&1 &
P=$!
CARGO_TARGET_DIR="$B/native-js-rel" cargo build --release --offline --manifest-path "$V/js/Cargo.toml" --bin jsreplay > "$B/native-js-rel.log" 2>&1 || { cat "$B/native-js-rel.log"; exit 1; }
wait $P || { cat "$B/native-js.log"; exit 1; }
mkdir -p "$B/native-js/release"
cp "$B/native-js/debug/jsreplay" "$B/native-js/debug/replay.tmp"; mv "$B/native-js/debug/replay.tmp" "$B/native-js/debug/replay"
cp "$B/native-js-rel/release/jsreplay" "$B/native-js/release/replay.tmp"; mv "$B/native-js/release/replay.tmp" "$B/native-js/release/replay"
) 7> "$B/.lock-js"
exit
fi
mkdir -p "$B/native"
export CARGO_TARGET_DIR="$B/native"
( flock 8
forget "$B/native" "$B/native-rel" "$B/native-cli"
cargo build --offline --manifest-path "$V/harness/Cargo.toml" --bin replay > "$B/native.log" 2>&1 &
P=$!
CARGO_TARGET_DIR="$B/native-rel" cargo build --release --offline --manifest-path "$V/harness/Cargo.toml" --bin replay > "$B/native-rel.log" 2>&1 || { cat "$B/native-rel.log"; exit 1; }
# the command line program itself
CARGO_TARGET_DIR="$B/native-cli" cargo build --offline --manifest-path "$V/../repo/Cargo.toml" --bin whitespace > "$B/native-cli.log" 2>&1 || { cat "$B/native-cli.log"; exit 1; }
wait $P || { cat "$B/native.log"; exit 1; }
mkdir -p "$B/native/release"
for d in debug release; do cp "$B/native-cli/debug/whitespace" "$B/native/$d/whitespace.tmp"; mv "$B/native/$d/whitespace.tmp" "$B/native/$d/whitespace"; done
cp "$B/native-rel/release/replay" "$B/native/release/replay.tmp"; mv "$B/native/release/replay.tmp" "$B/native/release/replay"
) 8> "$B/.lock-native"
