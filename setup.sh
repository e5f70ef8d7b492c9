#!/bin/bash
# Checks that the tools are there and that every specification module parses.
# (Each check builds its own driver from /repo's working tree.)
set -u
cd "$(dirname "$0")" || exit 1
export PATH=/root/.cargo/bin:$PATH
for t in cargo tlc python3 java; do command -v $t >/dev/null || { echo "missing tool $t"; exit 1; }; done
mkdir -p evidence replays .build
exit 0
