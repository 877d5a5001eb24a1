#!/bin/bash
# Warms the build cache; every check builds again from /repo's current tree.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
go vet ./... || exit 1
tmp=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 1
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp" ./cmd/... 
