#!/bin/sh
# builds the symbolic executor and its runtime bitcode into /verif/build (offline)
set -e
cd "$(dirname "$0")"
make -s -j8 -C engine B="$PWD/build"
engine/rt.sh "$PWD/build"
