#!/bin/bash
# Builds everything once (warms the build cache); every check rebuilds from /repo.
export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOCACHE=/root/.cache/go-build GOPATH=/root/go
cd "$(dirname "$0")/h" || exit 1
d=$(mktemp -d /tmp/verif.XXXXXX) || exit 1
trap 'rm -rf -- "$d"' EXIT
go build -o "$d/vh" ./cmd/vh && go build -race -o "$d/vhr" ./cmd/vh
