#!/bin/bash
# Development aid: the whole ctest suite (with an MCC data file) on a copy of /repo.
set -e
D=$(mktemp -d /tmp/full.XXXXXX); trap 'rm -rf "$D"' EXIT
cp -a ${1:-/repo}/. $D/; rm -rf $D/_build; mkdir -p $D/mcc-codes; cp /verif/harness/data/mcc_codes.json $D/mcc-codes/
cmake -S $D -B $D/_b -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=ON -DCMAKE_DISABLE_FIND_PACKAGE_Qt5=ON -DCMAKE_DISABLE_FIND_PACKAGE_Qt6=ON -DFETCH_ARGP=OFF >$D/cm.log 2>&1 || { tail $D/cm.log; exit 1; }
ninja -C $D/_b >$D/n.log 2>&1 || { tail -30 $D/n.log; exit 1; }
(cd $D/_b && ctest -j8 --output-on-failure ${VH_CTEST:-} | tail -${VH_TAIL:-12})
