#!/bin/sh
# Builds the monitors once, offline. Every check builds what it needs again if
# this was not run or /repo has changed since.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays .work
CARGO_TARGET_DIR="$PWD/target/native" cargo build --offline -q --manifest-path harness/Cargo.toml
python3 -c 'import json; [json.loads(l) for l in open("properties.jsonl")]; json.load(open("MANIFEST.json"))'
