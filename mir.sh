#!/bin/bash
# MIR of /repo's current tree with the hooks on: mir.sh OUT
OUT=$(realpath -m "$1")
. /opt/vp/env.sh
cd /verif/replay
export CARGO_TARGET_DIR=${KV_TARGET:-/verif/.build/t} RUSTC_BOOTSTRAP=komunikilo CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
RUSTFLAGS="${KV_FLAGS---cfg komunikilo_verif}" cargo rustc -p komunikilo --lib --offline -- -Zunpretty=mir -Ztrim-diagnostic-paths=no -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull -A warnings > "$OUT"
