#!/bin/bash
# build_ir.sh OUT.ll h_a,h_b,...   : LLVM IR of the harnesses together with the
# code of /repo's current working tree, its dependencies and std.
# Also builds the native replay programs (dev and release).
set -e
. "$(dirname "$0")/lib.sh"
OUT=$1; H=$2
mkdir -p "$B"
M=$V/harness/Cargo.toml; I=$B/ir; X=
# C23 has a workspace of its own, with macros that must not get these flags
case "$H" in *h_c23*) M=$V/js/Cargo.toml; I=$B/ir-js; X="--target x86_64-unknown-linux-gnu";; esac
D=$I/${X#--target }/release/deps
( flock 9
mkdir -p "$I"
# /repo's crate is always compiled from the present files, whatever their times
forget "$I"
case "$H" in *h_c22*) T="--lib --bin wscli";; *) T="--lib";; esac
RUSTC_BOOTSTRAP=1 RUSTFLAGS="--cfg symex -Zinline-mir=no -C no-prepopulate-passes --emit=llvm-bc,link -C panic=abort" \
  CARGO_TARGET_DIR="$I" cargo build --offline --release $T $X --manifest-path "$M" > "$I.log" 2>&1 || { grep -A12 "^error" "$I.log"; exit 1; }
) 9> "$B/.lock"
W=$(mktemp -d "$B/link.XXXX")
trap 'rm -rf "$W"' EXIT
BCS=$(python3 "$V/tools/bclist.py" "$D")
case "$H" in *h_c22*) ;; *) BCS=$(echo "$BCS" | tr ' ' '\n' | grep -v wscli | tr '\n' ' ');; esac
"$LB/llvm-link" $BCS -o "$W/app.bc"
"$LB/llvm-dis" "$W/app.bc" -o "$W/app.ll"
python3 "$V/tools/patch_ll.py" "$W/app.ll" "$W/app2.ll"
"$LB/llvm-as" "$W/app2.ll" -o "$W/app2.bc"
"$LB/llvm-link" "$W/app2.bc" --only-needed "$B/std.bc" -o "$W/all.bc" 2> "$W/l.log" || { cat "$W/l.log"; exit 1; }
"$LB/opt" -passes='internalize,globaldce' -internalize-public-api-list="$H" "$W/all.bc" -o "$W/all1.bc"
"$LB/llvm-nm" --defined-only -C "$W/all1.bc" | sed -E 's/^[-0-9a-f ]+ [a-zA-Z] //' | sort -u > "$OUT.fns"
"$LB/opt" -strip-debug -passes='default<O2>' -vectorize-loops=false -vectorize-slp=false "$W/all1.bc" -o "$W/all2.bc"
"$LB/llvm-dis" "$W/all2.bc" -o "$OUT.tmp"
mv "$OUT.tmp" "$OUT"
