#!/bin/bash
# Usage: check.sh PROPERTY   Builds against /repo's current tree and decides one property.
# Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed. Else: an error.
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$VERIF"
BIN="$("$VERIF/build.sh" | tail -1)" || exit 3
[ -x "$BIN" ] || exit 3
"$BIN" check "$1"
rc=$?
# The recorded findings (none at present are suppressed: "fixed:" lines suppress nothing).
if [ "$rc" = 0 ]; then
  grep "^finding: property=$1 " "$VERIF/known-findings.txt" | sed 's/^finding:/KNOWN-FINDING:/'
fi
exit "$rc"
