#!/bin/bash
# Nothing to compile: checks that the pieces the checks need are there and work.
cd "$(dirname "$0")" || exit 2
set -e
PY=/opt/veriftools/pyvenv/bin/python
"$PY" -B -c 'import sys; sys.path[:0] = [".", "/repo"]; import hypothesis, htmltools, vfw.core, vfw.gen, vfw.deps; import props.c01, props.c20; from vfw import js; r = js.read("ReactDOM.render(React.createElement(A))", ["A"]); assert r["calls"] == 1, r'
python3 -c 'import json; [json.load(open(f)) for f in ("MANIFEST.json", "data/rules.json", "known_findings.json")]'
mkdir -p evidence replays
echo "setup: ok"
