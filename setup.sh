#!/bin/bash
# Compiles everything once so that later checks only rebuild what changed.
export HOME=/root PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off
root=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$root/out/bin" "$root/evidence"
cd "$root/harness" && go build ./...
go build -tags extra ./... 2>/dev/null || true
CGO_ENABLED=1 go build -race -o /dev/null ./cmd/par 2>/dev/null || true
