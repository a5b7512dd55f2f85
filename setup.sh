#!/bin/bash
# Builds the SSA front end (offline) and warms the compiled harness cache.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh >/dev/null 2>&1 || true
cd - >/dev/null 2>&1 || true
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$V/.build"
cd "$V/gofront"
GOFLAGS=-mod=mod GOSUMDB=off GOPROXY=off go build -o "$V/.build/gofront" .
