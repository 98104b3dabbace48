#!/bin/bash
# Runs one failing case again: ./replay.sh replays/P01-cells.json [REPO]   (exit 1: it still fails, 0: it holds)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
file="$(realpath "$1")"
exec python3 "$here/run.py" REPLAY --replay "$file" ${2:+--repo "$2"}
