#!/bin/bash
# Builds the simulated process image (library from /repo's working tree + client)
# and the simulator.  usage: build.sh OUTDIR [REPO]
set -e
OUT=${1:?}; REPO=${2:-/repo}; HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT/o"
CC=clang; CXX=clang++
DEFS="-DBZ_NO_STDIO -D_FILE_OFFSET_BITS=64 -DDEBUG -D_POSIX_C_SOURCE=2 -DHAVE_GDB -U_FORTIFY_SOURCE"
INC="-I$REPO/c/include -I$REPO/c/lib/libstemmer_c/include -I$REPO/c/lib/bzlib"
SAN="-fsanitize=address -fsanitize-coverage=trace-pc -fsanitize-address-use-after-return=never"
CF="-std=gnu99 -w -g1 -O1 -fPIC -fno-common -fno-omit-frame-pointer $DEFS $INC"
HASH=$(cd "$REPO" && (find c/src c/include c/lib \( -name '*.[ch]' -o -name '*.mak' \) -print0 | sort -z | xargs -0 cat; cat "$HERE"/*.c "$HERE"/*.h "$HERE"/*.cc "$HERE"/build.sh) | sha256sum | cut -d' ' -f1)
if [ -f "$OUT/stamp" ] && [ "$(cat "$OUT/stamp")" = "$HASH" ]; then exit 0; fi
rm -f "$OUT/stamp"
OBJS=$(sed -n '/^OBJS = /,/[^\\]$/p' "$REPO/c/Makefile" | sed 's/OBJS = //; s/\\//g' | tr -s ' \n' '\n' | grep '\.o$' | sed 's/\.o$//')
BZ=$(sed -n '/^BZLIB_SRCS = /,/[^\\]$/p' "$REPO/c/Makefile" | sed 's/BZLIB_SRCS = //; s/\\//g' | tr -s ' \n' '\n' | grep '\.c$' | sed 's/\.c$//')
SN=$(sed -n '/^snowball_sources=/,/[^\\]$/p' "$REPO/c/lib/libstemmer_c/mkinc.mak" | sed 's/snowball_sources= *//; s/\\//g' | tr -s ' \n\t' '\n' | grep '\.c$' | sed 's/\.c$//')
{
 for o in $OBJS; do echo "$CC $CF $SAN -c $REPO/c/src/$o.c -o $OUT/o/f_$o.o"; done
 for o in $OBJS; do echo "$CC $CF $SAN -fsanitize-coverage=trace-loads,trace-stores -c $REPO/c/src/$o.c -o $OUT/o/g_$o.o"; done
 for o in $BZ; do echo "$CC $CF $SAN -c $REPO/c/lib/bzlib/$o.c -o $OUT/o/b_$o.o"; done
 for o in $SN; do echo "$CC $CF -O0 -c $REPO/c/lib/libstemmer_c/$o.c -o $OUT/o/s_$(echo $o | tr / _).o"; done
 echo "$CC $CF $SAN -I$HERE -c $HERE/client.c -o $OUT/o/client.o"
 echo "$CC -std=gnu99 -w -g1 -O2 -fPIC -I$HERE -c $HERE/wrap.c -o $OUT/o/wrap.o"
 for f in $HERE/*.cc; do echo "$CXX -std=c++17 -w -g -O2 -fno-omit-frame-pointer -I$HERE -c $f -o $OUT/o/k_$(basename $f .cc).o"; done
} > "$OUT/cmds"
xargs -P 8 -I{} sh -c '{} || exit 255' < "$OUT/cmds"
W=$(grep -o '__wrap_[a-zA-Z0-9_]*' "$HERE/wrap.c" | sort -u | sed 's/__wrap_/-Wl,--wrap=/')
# libproc: preemption between basic blocks; libfine: between single memory accesses as well
for v in proc:f fine:g; do
 L="$OUT/lib${v%:*}.so"
 $CC -shared -fsanitize=address -o "$L.tmp" $OUT/o/${v#*:}_*.o $OUT/o/b_*.o $OUT/o/s_*.o $OUT/o/client.o $OUT/o/wrap.o $W -Wl,-Bsymbolic -Wl,-z,now -Wl,-z,relro -lm -lz
 mv "$L.tmp" "$L"
 for i in 0 1 2 3 4 5; do cp "$L" "$L.$i"; done
done
$CXX -fsanitize=address -rdynamic -o "$OUT/fsim" $OUT/o/k_*.o -ldl -lpthread
echo "$HASH" > "$OUT/stamp"
