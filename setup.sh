#!/bin/bash
# nothing to install: the checks build their harness crates themselves from /repo's working tree
set -e
cd "$(dirname "$0")"
for f in specs/VxArrayTrace.tla; do test -f "$f"; done
. /opt/vp/env.sh
for c in harness dfharness concharness; do (cd $c && CARGO_TARGET_DIR=/repo/target cargo build --offline 2>&1 | tail -1); done
