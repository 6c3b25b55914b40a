#!/bin/sh
# Builds the conformance harness once (warms the Go build cache) and checks that
# the TLA+ tools start.  Every check rebuilds what it needs from /repo anyway.
set -e
cd "$(dirname "$0")/../harness"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -o /dev/null .
java -version 2>/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
echo setup ok
