"""Development aid: rule histogram over many seeds of a property (all shards), one example each."""
import subprocess, sys, os, json, re, concurrent.futures
sys.path.insert(0, os.path.dirname(__file__)); import simbuild, sym
prop, n = sys.argv[1], int(sys.argv[2]); seed = sys.argv[3] if len(sys.argv) > 3 else "1"; scen = sys.argv[4] if len(sys.argv) > 4 else ""
exe = simbuild.build()
def shard(k):
    return subprocess.run([exe, "hashes", "--prop", prop, "--seed", str(int(seed) * 1000 + k), "--runs", str(n // 8), "--shard", str(k)] + (["--scenario", scen] if scen else []), stdout=subprocess.PIPE, text=True, errors="replace").stdout
with concurrent.futures.ThreadPoolExecutor(8) as ex: out = "".join(ex.map(shard, range(8)))
h = {}
for l in out.splitlines():
    f = l.split(" ")
    if len(f) >= 5: h.setdefault((f[2], f[3], ), []).append((f[0], f[1]))
for k in sorted(h, key=lambda k: -len(h[k])): print(len(h[k]), k, h[k][:3] if k[0] != "1" else "")
if "-v" in sys.argv:
    for k in h:
        if k[0] == "1": continue
        for s in h[k][:2]:
            o = subprocess.run([exe, "one", "--prop", prop, "--scenario", s[1], "--runseed", s[0]], stdout=subprocess.PIPE, text=True, errors="replace").stdout
            print(k, s, sym.symbolise(exe, o)[:1600]); print()
