#!/bin/bash
# Usage: build.sh ID  -> prints the path of the check's executable.
# Compiles /repo/src (every *.c there) with ASan+UBSan and the harness, out of tree.
# Objects are named by a hash of everything that goes into them.
set -eu
cd "$(dirname "$0")"
ID=$1
REPO=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$PWD/build}
mkdir -p "$B"
CC=clang; CXX=clang++
CFLAGS="-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined -ftrivial-auto-var-init=pattern -w ${VERIF_CFLAGS:-}"
CXXFLAGS="-std=c++20 -O1 -g1 -Wall -Wno-unused-function ${VERIF_CXXFLAGS:-}"
LDFLAGS="-fsanitize=address,undefined"
hash() { cat "$@" 2>/dev/null | sha256sum | cut -c1-16; }

LH=$( (echo "$CFLAGS"; cd "$REPO/src"; sha256sum *.c *.h) | sha256sum | cut -c1-16)
LIB=$B/lib-$LH
if [ ! -f "$LIB/libnk.a" ]; then
    T=$B/tmp-lib-$$; rm -rf "$T"; mkdir -p "$T"
    pids=()
    for f in "$REPO"/src/*.c; do
        $CC $CFLAGS -I"$REPO/src" -c "$f" -o "$T/$(basename "$f" .c).o" & pids+=($!)
    done
    for p in "${pids[@]}"; do wait "$p" || { echo "compiling /repo/src failed" >&2; exit 2; }; done
    ar rcs "$T/libnk.a" "$T"/*.o
    rm -f "$T"/*.o
    mv "$T" "$LIB" 2>/dev/null || rm -rf "$T"
fi

# Harness: each source depends on all harness headers and on the public header.
HH=$( (echo "$CXXFLAGS"; cat src/*.h; cd "$REPO/src"; cat nkx.h nktypes.h nkvalue.h nkenums.h nkfuncid.h 2>/dev/null) | sha256sum | cut -c1-16)
objs=(); pids=()
for f in src/*.cpp src/props/$ID.cpp; do
    o=$B/$(basename "$f" .cpp)-$( (echo "$HH"; cat "$f") | sha256sum | cut -c1-16).o
    objs+=("$o")
    if [ ! -f "$o" ]; then
        ( $CXX $CXXFLAGS -Isrc -I"$REPO/src" -c "$f" -o "$o.$$" && mv "$o.$$" "$o" ) & pids+=($!)
    fi
done
for p in ${pids[@]+"${pids[@]}"}; do wait "$p" || { echo "compiling the harness failed" >&2; exit 2; }; done
EXE=$B/$ID-$( (echo "$LH"; printf '%s\n' "${objs[@]}") | sha256sum | cut -c1-16)
if [ ! -x "$EXE" ]; then
    $CXX $LDFLAGS "${objs[@]}" "$LIB/libnk.a" -lm -o "$EXE.$$" && mv "$EXE.$$" "$EXE"
fi
# The command-line interpreter, for the check that runs it.
if [ "$ID" = C26 ] && [ ! -x "$EXE.ninkasi" -o ! -f "$EXE.src" ] || { [ "$ID" = C26 ] && [ "$(cat "$EXE.src")" != "$(hash "$REPO"/src/interp/* src/props/C26.shim.c)" ]; }; then
    $CC $CFLAGS -I"$REPO/src" -Wl,--wrap=malloc,--wrap=realloc "$REPO"/src/interp/*.c src/props/C26.shim.c "$LIB/libnk.a" -lm -o "$EXE.ninkasi.$$" || { echo "compiling the interpreter failed" >&2; exit 2; }
    mv "$EXE.ninkasi.$$" "$EXE.ninkasi"
    hash "$REPO"/src/interp/* src/props/C26.shim.c > "$EXE.src"
fi
echo "$EXE"
