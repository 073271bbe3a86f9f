#!/bin/sh
# development build of the main variant
cd /verif/sim && MBSIM_VARIANT=main CARGO_TARGET_DIR=/verif/sim/target/dev cargo build -q --offline --release --features rocks,bincode "$@"
