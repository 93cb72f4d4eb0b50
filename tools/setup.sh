#!/bin/bash
# Builds what does not depend on /repo: the symbolic executor and the bitcode
# of the Rust standard library (taken from the toolchain's own rlibs).
set -e
. "$(dirname "$0")/lib.sh"
mkdir -p "$B"
( flock 9
if [ ! -x "$B/engine/release/symex" ] || [ -n "$(find "$V/engine" -newer "$B/engine/release/symex" -name '*.rs' -not -path '*/target/*' | head -1)" ]; then
  CARGO_TARGET_DIR="$B/engine" cargo build --release --offline --manifest-path "$V/engine/Cargo.toml" > "$B/engine.log" 2>&1 || { cat "$B/engine.log"; exit 1; }
fi
if [ ! -s "$B/std.bc" ]; then
  T=$(mktemp -d "$B/std.XXXX")
  cd "$T"
  for r in "$SYSROOT"/lib/rustlib/x86_64-unknown-linux-gnu/lib/*.rlib; do
    n=$(basename "$r" .rlib)
    case $n in libcompiler_builtins-*|libtest-*|libpanic_unwind-*|libproc_macro-*|libgetopts-*|librustc_std_workspace*) continue;; esac
    mkdir "$n"; ( cd "$n"; "$LB/llvm-ar" x "$r"; for o in *.o; do [ -f "$o" ] && "$LB/llvm-objcopy" --dump-section .llvmbc="${o%.o}.bc" "$o" /dev/null 2>/dev/null || true; done )
  done
  "$LB/llvm-link" */*.bc -o std.bc 2> link.log || { cat link.log; exit 1; }
  mv std.bc "$B/std.bc"
  cd "$B"; rm -rf "$T"
fi
) 9> "$B/.lock"
