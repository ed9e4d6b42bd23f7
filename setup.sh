#!/bin/bash
# Builds the framework from the committed files, offline.
. /opt/vp/env.sh
cd "$(dirname "$0")/mc" || exit 1
cargo build --release --offline || exit 1
bash ../conc/build.sh || exit 1
bash ../cost/build.sh
