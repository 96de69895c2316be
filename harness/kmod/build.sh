#!/bin/bash
# build.sh OUTDIR: the kernel module's front end from /repo's working tree, with
# the installed kernel headers, linked to a stand-in kernel and library
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${JENT_REPO:-/repo}
out=$(mkdir -p "$1" && cd "$1" && pwd)
kdir=$(ls -d /usr/src/linux-headers-*-generic | sort -V | tail -n 1)
rm -rf "$out/ko" "$out/kh" "$out/kuser.o"; mkdir -p "$out/ko"
gcc -O1 -g -w -fno-PIE -c "$here/kuser.c" -o "$out/kuser.o" & pid=$!
cd "$kdir"
KF="-nostdinc -I./arch/x86/include -I./arch/x86/include/generated -I./include -I./arch/x86/include/uapi -I./arch/x86/include/generated/uapi
 -I./include/uapi -I./include/generated/uapi -include ./include/linux/compiler-version.h -include ./include/linux/kconfig.h -I./ubuntu/include
 -include ./include/linux/compiler_types.h -D__KERNEL__ -DMODULE -std=gnu11 -fshort-wchar -funsigned-char -fno-common -fno-PIE
 -fno-strict-aliasing -mno-sse -mno-mmx -mno-sse2 -mno-avx -fcf-protection=none -m64 -mno-80387 -mno-fp-ret-in-387 -mno-red-zone
 -fno-stack-protector -fno-delete-null-pointer-checks -O1 -g -w -fno-strict-overflow -DCONFIG_CRYPTO_FIPS=1 -DLINUX_KERNEL
 -DCONFIG_EXTERNAL_JITTERENTROPY_TESTINTERFACE -DCONFIG_EXTERNAL_JITTERENTROPY_KCAPI -DCONFIG_EXTERNAL_JITTERENTROPY_CHARDEV
 -DCONFIG_EXTERNAL_JITTERENTROPY_HWRNG -I$repo/linux_kernel -I$repo -I$repo/src -I$here -D__KBUILD_MODNAME=kmod_jitter_rng"
printf '%s\n' "$repo"/linux_kernel/*.c "$here/kglue.c" | xargs -P 8 -I{} sh -c 'b=$(basename {} .c); gcc '"$(echo $KF)"' -DKBUILD_MODNAME="\"jitter_rng\"" -DKBUILD_BASENAME="\"$b\"" -c {} -o '"$out"'/ko/$b.o'
wait $pid
gcc -no-pie -o "$out/kh" "$out/kuser.o" "$out"/ko/*.o -Wl,-z,noexecstack 2>"$out/ld.log" || { cat "$out/ld.log" >&2; exit 1; }
