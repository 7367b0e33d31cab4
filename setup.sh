#!/bin/bash
# Builds the symbolic executor from the vendored sources (offline).
set -e
. "$(dirname "$0")/env.sh"
cd "$VDIR/engine"
GO111MODULE=on GOFLAGS=-mod=vendor go build -o "$VDIR/bin/gosym" .
