#!/bin/bash
# try.sh (revert COMMIT | patch FILE) PROP...   runs checks against a changed scratch copy
D=/tmp/try.$$
cp -a /repo $D && rm -rf $D/build
if [ "$1" = revert ]; then git -C $D revert -n "$2" >/dev/null 2>&1 || { echo "CANNOT REVERT $2"; git -C $D status --short | head -5; rm -rf $D; exit 3; }; else git -C $D apply "$2" || { rm -rf $D; exit 3; }; fi
W=$2; shift 2
for p in "$@"; do echo "== $W $p"; SIM_REPO=$D timeout 800 /verif/check $p 2>&1 | cut -c1-${CUT:-700} | tail -4; done
rm -rf $D
