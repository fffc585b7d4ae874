#!/bin/bash
# run.sh <property> <quick|thorough> [-replay FILE]: builds the check of one property from
# /repo's current working tree and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?property}; tier=${2:-quick}; shift; shift || true
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOLOG_LOG_LEVEL=fatal GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod VERIF_TIER=$tier VERIF_DIR=$here
low=$(echo "$prop" | tr 'A-Z' 'a-z')
mkdir -p "$here/build"
bin="$here/build/$low"
cd "$here/mc" || exit 2
go build -o "$bin" "./$low" || { echo "build of the check failed" >&2; exit 2; }
if [ "$prop" = C18 ]; then
  CGO_ENABLED=1 go build -race -o "$here/build/c18race" ./c18race || { echo "build of the check failed" >&2; exit 2; }
fi
exec "$bin" "$@"
