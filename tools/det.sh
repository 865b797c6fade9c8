#!/bin/bash
# tools/det.sh SECS PROP...: every run twice, three times as many processes as there are processors
E=$(python3 /verif/lib/simbuild.py); S=$1; shift
for p in "$@"; do
  rm -rf /tmp/det.$p; mkdir -p /tmp/det.$p
  for s in $(seq 0 23); do timeout 900 $E explore --prop $p --seed ${SEED:-77} --shard $s --shards 24 --secs $S --det-every 1 --out /tmp/det.$p/o$s --stop /tmp/det.$p/stop --replay-out /tmp/det.$p/r$s --min-secs 1 >/dev/null 2>&1 & done; wait
  python3 - $p <<'P'
import json,sys
n=0;bad=[]
for s in range(24):
    try: o=json.load(open('/tmp/det.%s/o%d'%(sys.argv[1],s)))
    except Exception as e: bad.append(str(e)); continue
    n+=o['det_checked']
    if o['code']: bad.append((o['code'],o['rule'],o['error'][:300]))
print(sys.argv[1],n,'runs repeated',bad)
P
  rm -rf /tmp/det.$p
done
