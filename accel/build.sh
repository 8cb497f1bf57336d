#!/bin/bash
# build.sh DIR: libAccelerate.a, libcblas.a and libneon_shim.rlib
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/../env.sh"
d="$1"; mkdir -p "$d" || exit 1
new() { [ "$1" -nt "$2" ] || [ "$here/build.sh" -nt "$2" ]; }
exec 9>"$d/.lock"; flock 9
set -e
for p in accelerate:Accelerate cblas:cblas; do
    if new "$here/${p%:*}.c" "$d/lib${p#*:}.a"; then
        gcc -O2 -g -ffp-contract=off -fPIC -Wall -Wno-misleading-indentation -c "$here/${p%:*}.c" -o "$d/${p%:*}.o"
        rm -f "$d/lib${p#*:}.a"; ar rcs "$d/lib${p#*:}.a" "$d/${p%:*}.o"
    fi
done
if new "$here/neon_shim.rs" "$d/libneon_shim.rlib"; then
    rustc --edition 2021 --crate-type rlib --crate-name neon_shim -O -Ctarget-cpu=x86-64-v3 "$here/neon_shim.rs" -o "$d/libneon_shim.rlib"
fi
