#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "Seeded search: every byte offset and call is a possible fault point and every failure is replayable, but runs are sampled. Trusts the simulated output and the fault-free text it is compared with (C04, C06 decide that text).",
 "C02": "Seeded search over documents, values and failing calls; trusts the simulated destinations and the fault-free output they are compared with.",
 "C03": "Seeded search over crash points and storage damage; a watchdog and a counting allocator decide termination and memory. Trusts those and the damage model.",
 "C04": "Seeded search over documents, crash points, damage and load/save/clone/snapshot cycles; the oracle is byte equality.",
 "C05": "Seeded search over client interleavings and edit histories; trusts the sequential model in sim/src/model.rs and ops.rs.",
 "C06": "Seeded search over edits, saves through a faulty disk, crashes and restarts; trusts the sequential model and the disk model. Limits of the format which the library does not write around are excluded from the domain, as the quantifier and DESIGN.md say.",
 "C07": "Seeded search over interleaved edit histories; the oracle is the byte difference between saved texts before and after each step against the text spans of the model.",
 "C08": "Seeded search over interleavings of collecting and using identifiers, with rollback and snapshot restores; trusts the sequential model.",
 "C09": "Seeded search over histories, snapshot points, failing serializer/deserializer calls, truncations, permutations and hash seeds; the oracle is a twin which never crashed.",
 "C10": "Seeded search over operations, states and failing calls; the oracle is the state before, and a twin which never saw a failure.",
 "C11": "Seeded search over thread schedules: real threads hand a baton to each other at every call into caller code, between operations, and inside of the library (compiled with a call into the scheduler at every control-flow edge, load and store), so the simulator decides every interleaving and replays it exactly. Sequentially consistent executions only; code of the library that is generic over caller code is preempted at calls and stores. The oracle is the same program run alone.",
 "C12": "Seeded search over cycles of edits; a counting allocator and the snapshot size decide growth.",
 "C13": "Seeded search over two-consumer schedules; the oracle is a double-ended queue.",
}
NA = {
 "C14": "A pure function of its input: no fault, schedule, clock, crash or history takes part, so there is nothing to simulate. Differential testing against a reference parser would be the technique; what faults and crashes can reach of it (content surviving save, crash and reload) is decided under C06.",
 "C15": "A pure function of the number's text. Numbers that take part in edit histories and reloads are compared under C05 and C06.",
 "C16": "A pure function of document and target type: no fault or interleaving takes part. Failing visitors are decided under C10, agreement of the deserializer with the accessors under C05.",
 "C17": "A pure function of the input. That damaged input is rejected with a span within it is decided under C03.",
 "C18": "All allocation in the library is infallible: std aborts the process when it fails, so nothing observes a document after a failed allocation. What is saved by then is decided by C01 and C06.",
}
scen = os.path.join(root, "sim", "src", "scen")
have = sorted(f[:-3].upper() for f in os.listdir(scen) if f.startswith("c") and f.endswith(".rs"))
checks = [{
    "property": p,
    "quick_cmd": f"./check.sh {p}",
    "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
    "evidence_file": f"evidence/{p}.json",
    "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
    "level": "exploration",
    "level_note": NOTE[p],
} for p in have]
na = dict(NA)
for p in NOTE:
    if p not in have:
        na[p] = "Its check is still being built."
json.dump({
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(na.items())],
    "notes": "No hooks in /repo: every seam is one the library already has (io::Write, fmt::Write, serde, AsRef/IntoIterator arguments, bytes) or below it (getrandom, global allocator). Replay a violation with: NDSIM_ROOT=/verif sim/target/release/ndsim replay <file>.",
}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
