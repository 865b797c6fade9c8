"""Writes MANIFEST.json."""
import json, sys
CLAIMED = sys.argv[1].split(",")
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NA = {
 "C22": "A pure function of the message: no schedule, time, fault or other party takes part, so a simulator would only be generating inputs. (Serialisation over the simulated network is exercised by C13 and C14.)",
 "C23": "A pure value type: its laws depend on the inputs alone. (Copies crossing threads are covered by C03 and C07.)",
 "C24": "A pure function from text to value. (Reading configuration files under I/O faults is C18.)",
 "C25": "Pure string functions without any environment.",
}
NOTE = "Seeded search over schedules and faults of the real code in a deterministic simulator; every reported violation is repeated from its seed, replayed from its decision trace in a fresh process and minimised. Samples executions; trusts the simulator's model of pthreads, clocks, the allocator and the stubs listed in the evidence, and sequential consistency."
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check " + i, "evidence_file": "evidence/%s.json" % i,
                       "technique": "deterministic simulation with fault injection (seeded schedule and fault search, replayable)", "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check has been built yet.")})
json.dump({"version": 1, "setup_cmd": "python3 lib/simbuild.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the seams are the compiler's memory-access instrumentation, the C library boundary and the symbols of libzmq, the loader and the file system, all taken over at build time inside /verif."}, open("/verif/MANIFEST.json", "w"), indent=1)
