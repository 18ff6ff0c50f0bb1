#!/bin/bash
# Builds every check once (each check rebuilds what it needs anyway).
cd "$(dirname "$0")"
for f in src/props/C*.cpp; do ./build.sh "$(basename "$f" .cpp)" || exit 1; done
