#!/bin/bash
# Builds every check once, so that later builds start from a warm cache. Nothing here is required.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
cd "$here/mc" && go build ./...
