#!/bin/bash
# Runs main.go (and the stand-in world beside it) against the code in the
# current directory: exit 0 if it behaves, nonzero if not.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
# The native engine is not available: a stub satisfies the linker.
grep -o 'C\.wasmer_[a-z_0-9]*(' "$repo/wasmer/bridge.go" | sed 's/^C\.//; s/($//' | sort -u | while read -r f; do
  case $f in
    wasmer_instance_context_data_get) echo "void *$f(void *c) { return c; }" ;;
    *import_object_cache*) echo "unsigned $f() { return 1; }" ;;
    *) echo "void *$f() { return 0; }" ;;
  esac
done > "$tmp/stub.c"
gcc -shared -fPIC -o "$tmp/libwasmer_linux_amd64.so" "$tmp/stub.c"
python3 - "$here" "$repo" > "$tmp/overlay.json" <<'P'
import json, os, sys
here, repo = sys.argv[1:]
m = {os.path.join(repo, "verifdemo", "main.go"): os.path.join(here, "main.go")}
lib = os.path.join(here, "lib")
for d, _, fs in os.walk(lib):
    for f in fs:
        p = os.path.join(d, f)
        m[os.path.join(repo, os.path.relpath(p, lib))] = p
print(json.dumps({"Replace": m}))
P
export CGO_LDFLAGS="-L$tmp -Wl,-rpath,$tmp" LD_LIBRARY_PATH="$tmp" GOFLAGS=-mod=readonly GOPROXY=off
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./verifdemo
timeout 120 "$tmp/demo"
