#!/bin/bash
# check.sh PROPERTY [TIER]: decide one property on /repo's current tree.
# Exit 0: held within the bounds; 1: violated (VIOLATION line); 2: no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
bin=$("$here/build.sh") || { echo "engine build failed" >&2; exit 2; }
exec "$bin" -repo "${VERIF_REPO:-/repo}" -harness "$here/harness" -prop "$prop" -tier "$tier" \
  -out "$here/evidence" -known "$here/known_findings.json"
