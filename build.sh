#!/bin/bash
# build.sh [plain] [fine]: builds the simulator against the working tree of /repo.
# C11 uses `fine`, where threads can be preempted inside of library code.
set -eu
cd "$(dirname "$0")/sim"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
for kind in ${@:-plain fine}; do
    export CARGO_TARGET_DIR="$PWD/target" RUSTC_WRAPPER=
    if [ "$kind" = fine ]; then
        export CARGO_TARGET_DIR="$PWD/target/fine" RUSTC_WRAPPER="$PWD/fine-rustc.sh"
    fi
    log="target-build-$kind.log"
    cargo build --release --offline --quiet 2> "$log" || { cat "$log" >&2; exit 2; }
    rm -f "$log"
done
