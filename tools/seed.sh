#!/bin/bash
# tools/seed.sh ID...: confirm planted changes in scratch copies of /repo (seen as /repo in a mount namespace):
# demo passes without and fails with the change, the stable tests pass with it, and the check catches it.
# One scratch copy, removed at the end. NOCHECK=1 skips the check.
set -u
sc=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo "$sc/repo"
ns() { unshare -Urm bash -c "mount --bind $sc/repo /repo && $1"; }
for id in "$@"; do
  d=/verif/seeded/$id
  mkdir -p "$sc/demo"; cp -r "$d"/. "$sc/demo"; rm -f "$sc"/demo/*.diff "$sc"/demo/*.patch "$sc"/demo/meta.json
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C "$sc/repo" checkout -q -- .
  ns "bash /opt/vp/build.sh >$sc/log 2>&1" || { echo "$id: BASE BUILD FAILED"; continue; }
  ns "cd /repo && timeout 300 bash $sc/demo/demo.sh >$sc/demo0.log 2>&1"; a=$?
  git -C "$sc/repo" apply "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; continue; }
  ns "bash /opt/vp/test.sh $sc/o.json >$sc/log 2>&1" || { echo "$id: BUILD FAILED"; tail -20 "$sc/log"; continue; }
  t=$(python3 -c "
import json;d=json.load(open('$sc/o.json'));s=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
m=s-set(d['passed']);print('ok' if not m else sorted(m))")
  ns "cd /repo && timeout 300 bash $sc/demo/demo.sh >$sc/demo1.log 2>&1"; b=$?
  echo "$id [$prop]: demo unpatched=$a patched=$b tests=$t"
  [ $a -ne 0 ] && tail -5 "$sc/demo0.log"
  [ $b -eq 0 ] && tail -5 "$sc/demo1.log"
  if [ -z "${NOCHECK:-}" ]; then
    out=$(SIM_REPO=$sc/repo VERIF_SEED=1 VERIF_TIER=quick /verif/check $prop 2>&1); rc=$?
    echo "  check $prop rc=$rc: $(grep -m2 -E 'VIOLATION' <<<"$out" | cut -c1-240)"
  fi
  rm -r "$sc/demo"
done
rm -rf "$sc"
