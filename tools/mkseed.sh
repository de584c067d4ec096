#!/bin/bash
# mkseed.sh ID...: puts the demonstration library into seeded/ID.
cd "$(dirname "$0")/.."
for id in "$@"; do
  d=seeded/$id
  cp tools/demolib/demo.sh $d/demo.sh
  rm -rf "$PWD/$d/lib"
  mkdir -p $d/lib/verifnd $d/lib/verifh/vmh
  cp tools/demolib/nd.go $d/lib/verifnd/
  cp harness/verifh/vmh/*.go $d/lib/verifh/vmh/
  cp -r harness/arwen $d/lib/
done
