#!/bin/bash
# developer helper: vx.sh UNIT [probe] -> extract and run verus
. /opt/vp/env.sh; cd /verif
(cd tools/vx && CARGO_TARGET_DIR=/verif/build/vx cargo build --offline -q 2>&1 | grep -E "^error" -A6)
mkdir -p build/out
build/vx/debug/vx --contract contracts/$1.vc --repo ${REPO:-/repo} --out build/out/$1.rs --report build/out/$1.json --probe "$2" || exit 1
cat build/out/$1.json | head -c 1500; echo
time verus build/out/$1.rs ${EX---expand-errors} --triggers-mode silent 2>&1 | head -${N:-80}
