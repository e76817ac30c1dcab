#!/bin/bash
# Builds the simulated clock (once per source version) and prints the path of the library.
HERE=$(cd "$(dirname "$0")" && pwd)
SUM=$(sha1sum < "$HERE/faketime.c" | cut -c1-12)
for D in "$HERE/../build" "${TMPDIR:-/tmp}/jsons-sim-build"; do
    mkdir -p "$D" 2>/dev/null || continue
    SO=$D/faketime-$SUM.so
    if [ ! -s "$SO" ]; then
        gcc -O2 -shared -fPIC -o "$SO.$$" "$HERE/faketime.c" >&2 && mv -f "$SO.$$" "$SO" || continue
    fi
    realpath "$SO"; exit 0
done
exit 1
