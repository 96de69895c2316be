#!/bin/bash
# exit 0: property holds; nonzero: broken.  Run in the repository's root.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
gcc -O0 -g -w -std=gnu99 -fwrapv -DJENT_CONF_ENABLE_INTERNAL_TIMER -DJENT_CONF_ENABLE_MOCK_TIMER -DJENT_STATIC_LIB \
    -I"$d" -I. -Isrc -Iarch -o "$t/demo" "$d/demo.c" src/*.c arch/*.c -lpthread -lrt EXTRA || exit 4
cd "$t" && timeout 240 ./demo
