#!/bin/bash
# Pre-builds the native modules of the current tree into the content-addressed cache (checks do it themselves if needed).
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays .cache
exec /opt/venv/bin/python -W ignore -c '
import sys; sys.path.insert(0, "lib")
import vlib, os
vlib.build_natives(os.path.join(vlib.scratch(), "n"))
print("natives ready")'
