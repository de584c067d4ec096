#!/bin/bash
# Builds the engine from the committed sources (once per source state) and
# prints the path of the binary.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
key=$(cat "$here"/engine/*.go "$here"/engine/go.mod | sha256sum | cut -c1-16)
dir="$here/.build"
bin="$dir/gosym-$key"
if [ ! -x "$bin" ]; then
  mkdir -p "$dir"
  tmp=$(mktemp "$dir/gosym.XXXXXX")
  (cd "$here/engine" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build -o "$tmp" .) >&2
  chmod +x "$tmp"
  mv -f "$tmp" "$bin"
fi
echo "$bin"
