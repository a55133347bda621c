#!/bin/bash
# Builds the simulator from /repo's working tree into $OUT (default /verif/build).
# Object files are cached by a hash of everything that went into them, so an
# unchanged file is not compiled twice.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
OUT=${OUT:-$(dirname "$HERE")/build}
exec python3 "$HERE/build.py" "$R" "$OUT"
