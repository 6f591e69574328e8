#!/bin/sh
# Nothing to build ahead: every check compiles its harness from /repo and runs TLC itself.  This only checks the tools.
set -e
cd "$(dirname "$0")"
command -v g++ tlc python3 java >/dev/null
python3 -c "import json; json.load(open('MANIFEST.json'))"
mkdir -p evidence replays
