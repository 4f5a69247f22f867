#!/bin/bash
# Usage: replay.sh FILE   Replays a violation (exit 1: reproduced exactly, 0: no violation).
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$VERIF"
BIN="$("$VERIF/build.sh" | tail -1)" || exit 3
exec "$BIN" replay "$1"
