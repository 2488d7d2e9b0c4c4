#!/bin/bash
# Builds the source rewriter once to show that the toolchain works; every check rebuilds what it needs.
set -e
cd "$(dirname "$0")/simtool"
d=$(mktemp -d)
GOFLAGS= GO111MODULE=on GOTOOLCHAIN=local GOPROXY=off GOWORK=off go build -o "$d/simtool" .
rm -r "$d"
python3 --version
