#!/bin/bash
# Builds the framework from the committed files (every check does the same again for itself).
set -eu
cd "$(dirname "$0")/.."
. tools/env.sh
mkdir -p work evidence
python3 tools/sync.py work/ws
cd harness && cargo build --release --offline --locked
