#!/bin/bash
# Warms the build cache and shows the tools work; checks rebuild from /repo themselves.
set -e
cd "$(dirname "$0")"
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0 GOSUMDB=off
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
(cd harness && go build -o /dev/null ./cmd/vh)
java -version 2>&1 | head -1
