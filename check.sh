#!/bin/bash
# Usage: check.sh ID [engine options]. Builds from /repo's working tree and runs one property's check.
cd "$(dirname "$0")"
EXE=$(./build.sh "$1") || exit 2
ID=$1; shift
exec "$EXE" "$@"
