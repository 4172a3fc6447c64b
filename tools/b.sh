#!/bin/sh
cd /verif/harness/vecdrv && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/build/t-std cargo +stable build --offline 2>&1 | grep -E '^error' -A12 | head -${1:-60}
