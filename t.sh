#!/bin/bash
# build and run: t.sh <simrun args>, output symbolised
B=$(python3 /verif/lib/simbuild.py) || { echo "$B"; exit 9; }
ln -sf $B /verif/build/simrun
timeout ${T:-100} $B "$@" | python3 /verif/lib/sym.py $B
