#!/bin/bash
# trysed.sh FILE 's/a/b/' PROP...   (file relative to /repo)
D=/tmp/try.$$
cp -a /repo $D && rm -rf $D/build
perl -0pi -e "$2" $D/$1; cmp -s $D/$1 /repo/$1 && { echo "NO CHANGE: $2"; rm -rf $D; exit 3; }
W="$2"; shift 2
for p in "$@"; do echo "== ${W:0:100} $p"; SIM_REPO=$D timeout 800 /verif/check $p 2>&1 | cut -c1-${CUT:-300} | grep -v '^check' | head -${HL:-2}; done
rm -rf $D
