#!/bin/bash
# Builds the whole-program bitcode of the harness + /repo crates, and the native replay binaries.  usage: build_harness.sh sym|native|native-release, with c (compiler) or o (command line) behind the first word
set -e
B=/verif/.build; H=/verif/harness; mkdir -p $B
export RUSTUP_TOOLCHAIN=1.77.2 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1 || true
export RUSTUP_TOOLCHAIN=1.77.2
c=""; case "$1" in symc|nativec*) c=c;; symo|nativeo*) c=o;; symp|nativep*) c=p;; esac
case "$1" in
sym|symc|symo|symp)
  export CARGO_TARGET_DIR=$B/sym$c RUSTFLAGS="--cap-lints allow -C no-vectorize-loops -C no-vectorize-slp"
  rm -rf $B/sym$c/release/deps/vh$c-*.bc $B/sym$c/release/.fingerprint/vh$c-*
  cd $H/sym$c && cargo rustc --release --offline --lib -- --emit=llvm-bc
  cp $(ls -t $B/sym$c/release/deps/vh$c-*.bc | head -1) $B/vh$c.bc ;;
native|nativec|nativeo|nativep) export CARGO_TARGET_DIR=$B/native$c RUSTFLAGS="--cap-lints allow"; cd $H/native$c && cargo build --offline ;;
native-release|nativec-release|nativeo-release|nativep-release) export CARGO_TARGET_DIR=$B/native$c RUSTFLAGS="--cap-lints allow"; cd $H/native$c && cargo build --release --offline ;;
*) exit 3 ;;
esac
