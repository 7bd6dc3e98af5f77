#!/bin/bash
# run.sh <ID> [quick|thorough] : build the check (and the code under test from /repo's current tree) and run it
set -u
cd "$(dirname "$0")" || exit 2
id=$1; tier=${2:-${VERIF_TIER:-quick}}
B=$PWD/build/plain; X=()
# robustness checks run the code under the address and undefined behaviour sanitizers
case $id in C22|C23|C25) B=$PWD/build/asan; X=("SAN=-fsanitize=address,undefined" "OPT=-O1"); export ASAN_OPTIONS=detect_leaks=0;; esac
make -s -C mc -j8 "B=$B" "${X[@]}" "$B/bin/$id" >build-$id.log 2>&1 || { mkdir -p build; cat build-$id.log >&2; echo "build failed for $id" >&2; exit 2; }
rm -f "$PWD/build-$id.log"
exec "$B/bin/$id" --tier "$tier"
