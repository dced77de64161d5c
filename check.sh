#!/bin/bash
# usage: check.sh <property> <quick|thorough>      run the check of one property
#        check.sh <property> replay <file>         run the case of a replay file again
#        check.sh build                            build everything (setup_cmd)
# Rebuilds the harness and the crate from /repo's working tree each time.
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUST_BACKTRACE=0 RUST_MIN_STACK=67108864
export CBMH_VERIF=$V
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CBMH_ASAN

# cargo goes by mtime: forget what it knows of the crate under test and the harness (both layouts of its folder)
forget() {
  rm -rf "$1"/.fingerprint/cbm-* "$1"/.fingerprint/cbmh-* "$1"/build/cbm "$1"/build/cbmh "$1"/cbmh "$1"/cdisk
}

build() { # <plain|asan>: prints the folder of the binaries
  local log dir rc
  log=$(mktemp) || return 1
  if [ "$1" = asan ]; then
    rm -rf "$V"/target/miri/miri/*/debug/.fingerprint/cbm* "$V"/target/miri/miri/*/debug/build/cbm*
    dir=$V/target/asan
    forget "$dir/x86_64-unknown-linux-gnu/release"
    (cd harness && RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS="--cfg cbm_verif -Zsanitizer=address" CARGO_TARGET_DIR=$dir \
      cargo build --offline --release --locked --target x86_64-unknown-linux-gnu) >"$log" 2>&1
    rc=$?
    dir=$dir/x86_64-unknown-linux-gnu/release
  else
    dir=$V/target/plain
    forget "$dir/release"
    (cd harness && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTFLAGS="--cfg cbm_verif" CARGO_TARGET_DIR=$dir \
      cargo build --offline --release --locked) >"$log" 2>&1
    rc=$?
    dir=$dir/release
  fi
  if [ $rc -ne 0 ]; then
    echo "the build failed:" >&2
    tail -40 "$log" >&2
    rm -f "$log"
    return 1
  fi
  rm -f "$log"
  echo "$dir"
}

if [ "$1" = build ]; then
  build plain && build asan
  exit $?
fi
ID=${1:?property}
TIER=${2:?quick, thorough or replay}
KIND=plain
if [ "$ID" = C21 ]; then
  KIND=asan
  export CBMH_ASAN=1
  export ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=1
fi
BIN=$(build $KIND) || exit 2
if [ "$TIER" = replay ]; then
  exec "$BIN/cbmh" replay "${3:?replay file}"
fi
grep "^KNOWN-FINDING: property=$ID " known-findings.txt
exec "$BIN/cbmh" check "$ID" "$TIER"
