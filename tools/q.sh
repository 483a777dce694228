#!/bin/bash
# development loop: build variant V, run one sub
V=$1; shift
cd /verif && tools/build_rexpat.sh $V && make -s -C harness V=$V -j8 && rm -rf /tmp/rp && build/h-$V/hx run --replays /tmp/rp "$@"
