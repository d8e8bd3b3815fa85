#!/bin/bash
# build.sh OUTDIR [main source]: builds bant (or a program using its sources) from
# the sources in the current directory.
set -e
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
out="$1"; main="${2:-bant/bant.cc}"
cxx=g++; command -v g++-13 >/dev/null && cxx=g++-13
flags="-std=c++23 -w -O0 -fno-exceptions -fno-rtti -I$here/shim -I$PWD"
mkdir -p "$out/o"
{ find bant -name '*.cc' ! -name '*_test.cc' ! -name bant.cc; echo "$main"; } |
  xargs -P 8 -I{} bash -c "$cxx $flags -c '{}' -o '$out/o/'\"\$(echo '{}' | tr / _)\".o"
$cxx -o "$out/prog" "$out"/o/*.o /usr/lib/x86_64-linux-gnu/libre2.so.10 \
  -Wl,--start-group /usr/lib/x86_64-linux-gnu/libabsl_*.a -Wl,--end-group -lpthread
