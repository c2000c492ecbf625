#!/bin/bash
# build.sh <harness> <outdir>: builds a simulation from /repo's working tree (or $SIM_REPO)
set -e
cd "$(dirname "$0")"
H=$1; OUT=$2; R=${SIM_REPO:-/repo}
mkdir -p "$OUT"
CXX=clang++
COMMON="-std=c++20 -I. -I$R -g1 -ftrivial-auto-var-init=pattern -Wno-everything -include bits/stdc++.h"
case $H in
  queue|pool|interp) FL="-O1 -fsanitize=thread -mllvm -tsan-instrument-read-before-write=1"; RT=wm.cc; LD="";;
  memtest) FL="-O1 -fsanitize=thread -mllvm -tsan-instrument-read-before-write=1"; RT=memrt.cc; LD="";;
  *) FL="-O1 -fsanitize=address -fno-omit-frame-pointer"; RT=""; LD="-fsanitize=address";;
esac
[ $H = alloc ] && LD="$LD -Wl,--wrap=aligned_alloc,--wrap=posix_memalign,--wrap=free"
[ $H = text ] && LD="$LD -Wl,--wrap=rand"
N=$(sed -n 's#^// PARTS ##p' h_$H.cc); N=${N:-1}
pids=(); objs=()
for ((k = 0; k < N; k++)); do
  $CXX $COMMON $FL -DPART=$k -c h_$H.cc -o "$OUT/h_$H.$k.o" & pids+=($!); objs+=("$OUT/h_$H.$k.o")
done
$CXX -std=c++20 -O1 -I. -c driver.cc -o "$OUT/driver.o" & pids+=($!)
[ -n "$RT" ] && { $CXX -std=c++20 -O2 -I. -c $RT -o "$OUT/wm.o" & pids+=($!); }
for p in "${pids[@]}"; do wait $p; done
$CXX $LD "${objs[@]}" "$OUT/driver.o" ${RT:+"$OUT/wm.o"} -o "$OUT/$H"
