#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of claimed properties.
import json, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
claimed = open(os.path.join(here, "claimed.txt")).read().split()
NA = {"F01": "Pure functions of their input: no schedule, clock, I/O, fault or history takes part, so simulation with fault injection has nothing to decide; the helpers are only exercised as parts of the other properties."}
TODO = "Not claimed yet: the scenario that decides it is not built."
NOTE = {
"S": "Seeded search: real server code over a simulated kernel (sockets, poll, clocks); scripted clients send generated byte streams under drawn segmentation, backpressure, resets and accept faults; every byte the clients receive and every notification is compared with an executable reference model of the server. Finds violations on explored executions only; trusts the simulator's socket semantics, Qt and OpenSSL.",
"H": "Seeded search: real handlers and server over a simulated kernel, file faults on a scratch directory, scripted clients and upstreams; outcomes compared with an executable reference model. Finds violations on explored executions only; trusts the simulator's socket semantics and Qt.",
"C": "Seeded search: real client code over a simulated kernel and clock; scripted servers send generated responses and misbehave; requests seen by the servers and outcomes reported to the caller are compared with a reference model. Finds violations on explored executions only; trusts the simulator's socket semantics and Qt.",
"X": "Seeded search: real client and real server in one simulated process over a faulty simulated network, with server restarts; client outcomes are joined with the handler's history. Finds violations on explored executions only.",
}
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": [], "not_applicable": [],
     "notes": "No hooks are compiled into /repo: the seams are the libc calls, interposed by the simulator (sim/kernel.cpp). See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i + " --thorough", "technique": "deterministic simulation with fault injection (seeded schedule/fault search against a reference model)", "level": "exploration", "level_note": NOTE[i[0]]})
    else: m["not_applicable"].append({"property": i, "reason": NA.get(i, TODO)})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
