#!/bin/bash
# Builds every variant the checks use (they rebuild what changed themselves).
cd "$(dirname "$0")/.." || exit 2
mkdir -p build
for v in plain u16 asan tsan; do ( tools/build_rexpat.sh $v && flock build/lock-h-$v make -s -C harness V=$v -j4 ) & p="$p $!"; done
for v in xmlwf xmlwfasan; do tools/build_rexpat.sh $v & p="$p $!"; done
rc=0; for i in $p; do wait $i || rc=1; done
exit $rc
