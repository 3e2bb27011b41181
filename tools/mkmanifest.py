#!/usr/bin/env python3
"""writes MANIFEST.json from sim/props.py"""
import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "sim"))
from props import PROPS
NA = {"P01": "a pure function of its input: no schedule, clock, fault, I/O or interleaving can influence a key encoding (the end-to-end contents comparison of C11 exercises it as a by-product)"}
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 sim/genbuild.py && ninja -C sim -f ../build/build.ninja",
  hooks=dict(guard="QDB_SIM (none used: every seam is outside the source, by compiling /repo's files against shim headers and interposing the C and thread libraries at link time)", enable="sim/genbuild.py compiles /repo/src with -fsanitize=thread instrumentation calls routed to the simulator and the shim headers first on the include path", source_commits=[]),
  checks=[], not_applicable=[])
for p in props:
    if p in PROPS:
        m["checks"].append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
          technique="deterministic simulation with fault injection: seeded search over schedules, faults and workloads of the real code (scenarios: %s)" % ", ".join(sorted({w["scenario"] for w in PROPS[p]["work"]})),
          level="exploration", level_note=PROPS[p].get("note", "samples schedules, faults and histories; a clean batch is evidence, not proof")))
    else: m["not_applicable"].append(dict(property=p, reason=NA.get(p, "check under construction")))
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
