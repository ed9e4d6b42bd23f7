#!/bin/bash
# build.sh: the library, its dependencies and std, instrumented; two binaries, one with
# scheduling points only, one that also sees every memory access.
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 2
export CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
T="-Zsanitizer=thread -Zexternal-clangrt"
one() { RUSTFLAGS="$2" cargo +nightly build --release --offline -Zbuild-std --target x86_64-unknown-linux-gnu --target-dir "target/$1" 2>&1; }
one race "$T" & R=$!
one sched "$T -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0" ; A=$?
wait $R && exit $A
exit 1
