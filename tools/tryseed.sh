#!/bin/bash
# tryseed.sh ID [PROP...]: confirms a planted bug in a scratch copy and runs checks against it.
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"
cp -r "$here/seeded/$id" "$w/demo"
cd "$w/repo"
export GOFLAGS=-mod=readonly GOPROXY=off
if [ -z "$SKIPDEMO" ]; then
bash "$w/demo/demo.sh" > "$w/clean.log" 2>&1; echo "demo clean rc=$? (want 0)"; tail -3 "$w/clean.log"
fi
git apply "$here/seeded/$id/patch.diff" || exit 1
if [ -z "$SKIPDEMO" ]; then
go list -export ./... > /dev/null || { echo BUILD FAILS; exit 1; }
go test -vet=off -count=1 ./cmd/testgen/... ./crypto/... ./fuzz/util ./fuzz/weightedroulette ./ipc/marshaling ./mandos-go/... ./math/... 2>&1 | grep -v 'no test files' | grep -v '^ok' | grep -v LastIndex
bash "$w/demo/demo.sh" > "$w/bad.log" 2>&1; echo "demo patched rc=$? (want !=0)"; tail -3 "$w/bad.log"
fi
for p in "$@"; do
  VERIF_REPO="$w/repo" timeout 900 bash "$here/check.sh" $p quick > "$w/check.log" 2>&1; echo "check $p rc=$?"
  grep -v KNOWN "$w/check.log" | tail -${LINES_N:-3} | cut -c1-400
done
