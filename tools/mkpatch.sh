#!/bin/bash
# mkpatch.sh ID: takes the diff of the scratch clone /tmp/wt/repo as the patch of seeded/ID and resets the clone.
d=$(cd "$(dirname "$0")/.." && pwd)/seeded/$1
mkdir -p "$d"
git -C /tmp/wt/repo diff > "$d/patch.diff"
git -C /tmp/wt/repo checkout -q -- .
wc -l "$d/patch.diff"
