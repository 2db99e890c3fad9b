#!/bin/bash
# Nothing is built in advance: every check builds what it needs from /repo.
set -e
cd "$(dirname "$0")"
python3 -c 'import checks_spec'
g++ --version | head -1
clang++ --version | head -1
mkdir -p build evidence replays
