#!/usr/bin/env python3
# Writes MANIFEST.json from the list of claimed properties.
import json, sys
claimed = {
 "C01": "the whole cluster (real job and workers) with simulated source, network, handler, disks and supervisor under crashes, partitions and errors; every checkpoint and every handler call against exactly-once effects, and recovery once faults stop",
 "C15": "the whole cluster with workers that join, leave, fail and are partitioned; every assembly against the registrations and heartbeats, the newest checkpoint and the deployments of its members, and recovery once enough workers are there",
 "C02": "real operators (DKV, timers, event loop) deployed by the real Assembly, with simulated source runners, network, disk, crashes, redeploys and rescales, against a reference model: barrier cut",
 "C03": "real operators (DKV, timers, event loop) deployed by the real Assembly, with simulated source runners, network, disk, crashes, redeploys and rescales, against a reference model: state supplied to the handler",
 "C05": "real operators (DKV, timers, event loop) deployed by the real Assembly, with simulated source runners, network, disk, crashes, redeploys and rescales, against a reference model: routing and persisted groups",
 "C06": "real operators (DKV, timers, event loop) deployed by the real Assembly, with simulated source runners, network, disk, crashes, redeploys and rescales, against a reference model: state and timers after rescaling",
 "C10": "real operators (DKV, timers, event loop) deployed by the real Assembly, with simulated source runners, network, disk, crashes, redeploys and rescales, against a reference model: timers",
 "C11": "real operators (DKV, timers, event loop) deployed by the real Assembly, with simulated source runners, network, disk, crashes, redeploys and rescales, against a reference model: watermarks",
 "C04": "real source runners with simulated sources, key-by handlers, operators, network, latencies and back-pressure, against the recorded streams: every record once, in order, behind nothing that follows it",
 "C16": "real source runners with redeploys, crashes and failing calls; the positions reported for every checkpoint are compared with the operators' streams around the barrier",
 "C12": "the real snapshot store over simulated storage, with simulated workers, crashes, restarts, lost and repeated acknowledgements, against a model of who reported what",
 "C13": "the real snapshot store over simulated slow and faulty storage, with overlapping publications, cleanups, announcements, crashes and restarts",
 "C14": "the real snapshot store with real databases as operators: savepoints during checkpoints, then restores with the working storage deleted",
 "C07": "dkv.DB (real code) under a seeded scheduler and simulated disk, against a map",
 "C08": "dkv.DB sessions with crashes, power loss, disk errors and restores, against snapshots of a map",
 "C09": "dkv.DB sessions with garbage collection, redeploys and retention, files watched on the simulated disk; operators sharing tables",
 "C17": "table and log writers and readers on a faulty simulated disk, against the written entries",
 "C18": "the compactor with concurrent flushes on a faulty simulated disk, against a map",
 "C20": "batching layer (real code) under a seeded scheduler",
}
na = {
 "C19": "pure sequential in-memory data structures: their contract is a function of the operation sequence alone; there is no schedule, clock, I/O, fault or second party a simulator could control. They run as part of every other simulation, but deciding their own contract would be plain property-based testing, which is another technique.",
}
import subprocess
HOOKS = [subprocess.run(["git","-C","/repo","rev-parse","6a0a5b7"],capture_output=True,text=True).stdout.strip()]
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
note = ("Seeded search, no proof: exit 0 means no violation in the runs of this invocation. Trusts the patched scheduler, the reference model in the "
        "harness, and the reconstructed protobuf messages. Exactly repeatable from the replay file.")
m = {"version": 1, "setup_cmd": "bash -c '. /verif/env.sh; go version && which protoc'",
     "hooks": {"guard": "verif", "enable": "-tags verif", "source_commits": HOOKS},
     "checks": [], "not_applicable": [],
     "notes": "Deterministic simulation with fault injection; see DESIGN.md. check.sh builds a simulator binary from /repo's working tree (runtime overlay + AST instrumentation + harness overlay) and runs a seeded search on 8 processes."}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} thorough",
          "technique": "deterministic simulation with fault injection (seeded schedule and fault search): " + claimed[i],
          "level": "exploration", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "no check built yet")})
json.dump(m, open('/verif/MANIFEST.json','w'), indent=1)
