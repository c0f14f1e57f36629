#!/bin/bash
# builds the verifier once so that later builds hit the Go build cache
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
cd "$here/govc" && go build -o /dev/null .
