#!/bin/bash
# builds the extractor and, against /repo as it is, the harness
V="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$V/build" "$V/evidence" "$V/replays"
cd "$V" && exec python3 check.py --setup
