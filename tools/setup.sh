#!/bin/bash
# Nothing has to be installed: verifies that the tools are there.
set -e
cd "$(dirname "$0")/.."
command -v java clang++-18 python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p build evidence replays
python3 - <<'PY'
import json
json.load(open("MANIFEST.json"))
[json.loads(l) for l in open("properties.jsonl")]
PY
echo setup ok
