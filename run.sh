#!/bin/bash
# builds the checker (offline) and runs it: run.sh check C01 | replay FILE | ...
export HOME="${HOME:-/root}"
export CARGO_NET_OFFLINE=true RUSTFLAGS= CARGO_TERM_COLOR=never
cd /verif || exit 2
mkdir -p /verif/work
(
  flock 9
  CARGO_TARGET_DIR=/verif/work/target-vx cargo build --offline -q --manifest-path /verif/vx/Cargo.toml >/verif/work/vx-build.log 2>&1
) 9>/verif/work/.lock || { cat /verif/work/vx-build.log >&2; echo "ERROR: building the checker failed" >&2; exit 2; }
exec /verif/work/target-vx/debug/vx "$@"
