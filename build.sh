#!/bin/bash
# Builds the symbolic engine into /verif/bin/symgo (offline).
set -e
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/engine"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p "$here/bin"
exec go build -o "$here/bin/symgo" .
