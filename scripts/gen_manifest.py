#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
claimed = set(open(os.path.join(here, "scripts", "claimed.txt")).read().split())
note = {
 "client": "Seeded search over schedules, reply orders, chunkings and connection breaks with the real client code in one process under the simulator's scheduler; the server is a model with its own codec. Trusts the instrumenter and the stand-ins for sync, time and the network. Not a proof: it covers the seeds run.",
 "server": "Seeded search over schedules, request mixes, chunkings and faults with the real server code in one process under the simulator's scheduler; clients are models with their own codec, the file server a recording stand-in (or the real ufs on the simulated os where named). Trusts the instrumenter and the stand-ins. Not a proof: it covers the seeds run.",
 "ufs": "Seeded search over request histories of several sessions, schedules and disk faults with the real server and ufs code over an in-memory os; every reply and the whole tree are compared with a reference model. Trusts the instrumenter and the simulated os (compared with Linux by scripts/simos_conformance.sh). Not a proof: it covers the seeds run.",
}
kind = {}
for i in range(1, 6): kind["C%02d" % i] = "client"
for i in range(6, 14): kind["C%02d" % i] = "server"
for i in range(14, 23): kind["C%02d" % i] = "ufs"
na = {"C23": "a static equality of two files: nothing in it depends on a schedule, a fault, time or any input, so a simulation has nothing to vary and one comparison settles it"}
checks, nas = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick ./check.sh %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % i,
            "technique": "deterministic simulation with fault injection: seeded schedule and fault search against a reference model",
            "level": "exploration", "level_note": note[kind[i]]})
    else:
        nas.append({"property": i, "reason": na.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./scripts/setup.sh", "checks": checks, "not_applicable": nas,
     "notes": "No hooks in /repo: the check instruments a copy of the working tree at build time (tool/instr.go). Replay: ./check.sh replay FILE. Known findings: KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
