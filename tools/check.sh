#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds the harness against /repo's working tree, runs one property.
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: the check could not answer.
set -u
cd "$(dirname "$0")/.." || exit 3
. tools/env.sh
mkdir -p work
# C25 is about the state transition tool, which only then is part of the build
features=""
[ "${1:-}" = C25 ] && features="--features t8n"
python3 tools/sync.py work/ws || { echo "ERROR: mirroring /repo failed"; exit 3; }
if ! (cd harness && cargo build --release --offline --locked $features) >work/build.log 2>&1; then
    grep -E "^error" -A12 work/build.log | head -60
    tail -n 5 work/build.log
    echo "ERROR: the harness does not build against /repo"
    exit 3
fi
export VERIF_DIR
exec "$CARGO_TARGET_DIR/release/megafuzz" check "$1" "${2:-${VERIF_TIER:-quick}}"
