#!/bin/bash
# cwd: /repo after the build
here=$(cd "$(dirname "$0")" && pwd); B=$(pwd)/_build/src/c; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
W=; for f in write open open64 remove unlink close rename read; do W="$W -Wl,--wrap=$f"; done
gcc -std=gnu99 -w -g -D_FILE_OFFSET_BITS=64 -DDEBUG -I"$B/include" -I"$B/lib/libstemmer_c/include" -I"$here" "$here/demo.c" -o "$T/demo" "$B/libferret.a" $W -lm -lpthread -lz || exit 2
TMPDIR=$T timeout 250 "$T/demo"
