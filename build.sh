#!/bin/bash
# Builds the harness against /repo's working tree: build.sh [debug|release]...
. /opt/vp/env.sh
cd /verif/harness || exit 2
export CARGO_TARGET_DIR=/verif/.build/target CARGO_INCREMENTAL=0
for p in "${@:-debug}"; do
	if [ "$p" = release ]; then cargo build --offline --release || exit 2; else cargo build --offline || exit 2; fi
done
