#!/bin/bash
# builds kvreplay with the hooks on (falls back to a hook-free build)
. /opt/vp/env.sh
cd /verif/replay
export CARGO_TARGET_DIR=${KV_TARGET:-/verif/.build/t} RUSTC_BOOTSTRAP=komunikilo CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
RUSTFLAGS="--cfg komunikilo_verif" cargo build --offline "$@"
