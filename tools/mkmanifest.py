#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the table below."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
MC = "explicit-state model checking: breadth-first exploration of all operation histories of the real library against a reference model"
ENUM = "exhaustive enumeration of a bounded space of inputs, executed on the real library against an independent codec"
FAULT = "exhaustive fault injection: every device operation of every workflow, single and paired faults, on the real library"
CRASH = "exhaustive crash-point exploration: every prefix, torn write and unflushed subset of the write log, on the real library"
TRUST = "Trusted: the harness' in-memory device, its independent GPT codec and reference model (written from the UEFI rules, not from the code), rustc. Nothing is claimed outside the bounds."
T = {
 "C01": (MC, "model_checking", "All histories of the listed worlds to their depth; argument values complete for small usable ranges, boundary sets on huge ones. Entries whose span is inverted claim no sectors. " + TRUST),
 "C02": (MC, "model_checking", "All gap patterns and (size, alignment) pairs of small usable ranges after all histories to the depth, plus boundary sets on huge disks. GUID freshness is a difference between two runs of one history, not a statement about randomness. " + TRUST),
 "C03": (MC, "model_checking", "All (number, start, length) triples around every boundary after all histories to the depth. " + TRUST),
 "C04": (MC, "model_checking", "All sets of up to three or four entries with arbitrary spans over small ranges, all short histories, and limits at the edges of the number range. Inverted entries are left out. " + TRUST),
 "C05": (MC, "model_checking", "All histories to the depth over worlds with empty, sparse, nearly full, full and grown tables and entry counts 1 to 256. " + TRUST),
}
exec(open(os.path.join(root, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(root, "tools", "manifest_more.py")) else None
checks, na = [], []
for p in props:
    if p in T:
        t, l, n = T[p]
        checks.append({"property": p, "quick_cmd": f"./run.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p}",
                       "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": p, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "cd harness && CARGO_TARGET_DIR=target cargo build -q --offline --release",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: everything is observed through the public API, a device implemented by the harness, and (C18, C25) interposed libc calls on scratch files."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
