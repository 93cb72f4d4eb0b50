# Shared settings: toolchain, directories.
V=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
B=${VERIF_BUILD:-$V/build}
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
SYSROOT=$(rustc --print sysroot)
LB=$SYSROOT/lib/rustlib/x86_64-unknown-linux-gnu/bin
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
# forget TARGETDIR... : make cargo compile /repo's code again
forget() {
  local d
  for d in "$@"; do
    rm -rf "$d"/{debug,release,x86_64-unknown-linux-gnu/release}/.fingerprint/{whitespace,wsjs,wsharness,wsjsharness,wscli}-*
  done
}
