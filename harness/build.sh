#!/bin/bash
# build.sh OUTDIR [extra cflags...]: builds OUTDIR/lib.o (library from /repo's
# working tree, libc calls redirected) and OUTDIR/jh
# "par" as first extra argument: instrumented for concurrent scenarios
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${JENT_REPO:-/repo}
out=$1; shift
SY="--redefine-syms=$here/redirect.syms"; HF=""
if [ "$1" = par ]; then shift; set -- -fsanitize=thread "$@"; SY="$SY --redefine-syms=$here/par.syms"; HF="-DJH_PAR -fno-builtin"; fi
rm -rf "$out/obj"; mkdir -p "$out/obj"
FL="-O0 -g -w -std=gnu99 -fwrapv -fPIE -D_FILE_OFFSET_BITS=64 -DJENT_CONF_ENABLE_INTERNAL_TIMER -DJENT_CONF_ENABLE_MOCK_TIMER -DJENT_STATIC_LIB -I$repo -I$repo/src -I$repo/arch $*"
printf '%s\n' "$repo"/src/*.c "$repo"/arch/*.c | xargs -P 8 -I{} sh -c 'gcc '"$FL"' -c {} -o '"$out"'/obj/$(basename {} .c).o'
ld -r -o "$out/lib0.o" "$out"/obj/*.o
objcopy $SY "$out/lib0.o" "$out/lib.o"
gcc -O1 -g -w $HF -I"$repo" -o "$out/jh" "$here/jh.c" "$out/lib.o" -lpthread -lrt
