#!/bin/bash
# builds the symbolic engine into /verif/bin/symgo (no-op when up to date)
set -e
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 GOSUMDB=off
mkdir -p "$here/bin"
if [ ! -x "$here/bin/symgo" ] || [ -n "$(find "$here/engine" -newer "$here/bin/symgo" -name '*.go' -print -quit)" ]; then
  (cd "$here/engine" && go build -o "$here/bin/symgo.$$" . && mv "$here/bin/symgo.$$" "$here/bin/symgo")
fi
