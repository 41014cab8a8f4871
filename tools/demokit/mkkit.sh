#!/bin/bash
# mkkit.sh OUT.tgz: packs what a demonstration needs beside its own test.
set -e
D=$(cd "$(dirname "$0")" && pwd); V=$(cd "$D/../.." && pwd)
T=$(mktemp -d); mkdir -p $T/kit
cp -r $V/sim/stubs $V/sim/src $T/kit/; cp $V/sim/mkmod.py $T/kit/
cp -r $D/demokit $T/kit/src/; cp $D/zz_kit_test.go $T/kit/
tar czf $1 --sort=name --mtime=2020-01-01 --owner=0 --group=0 -C $T kit
rm -rf "$T"
