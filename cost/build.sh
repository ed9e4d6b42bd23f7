#!/bin/bash
# build.sh: the library, its dependencies and std, with every edge of the control flow counted
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 2
export CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc -Cforce-frame-pointers=no" \
  exec cargo +nightly build --release --offline -Zbuild-std --target x86_64-unknown-linux-gnu --target-dir target
