#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: "
T = {
 "C01": "simulated disk (short reads, EINTR, split characters, concurrent rewrites), interleaved loads, compared with parsing from memory",
 "C02": "injected open/read errors, torn and non-UTF-8 files, missing files and directories, recovery after heal; error stage, path, cause and open handles checked",
 "C03": "endless and growing simulated files with read and allocation accounting; limits drawn around the exact size and depth against a reference parser",
 "C04": "torn, lost, duplicated, swapped, corrupted and bit-flipped documents against an independent reference parser with first-problem locations",
 "C05": "save/load generations over a simulated disk with short, interrupted and torn writes, compared with the reference document",
 "C06": "failing, short-writing, interrupting and full sinks, several renderers interleaved; exact-prefix and retry checks",
 "C07": "seeded transform programs with stalling content, interleaved clients, conservation against a reference interpreter",
 "C08": "seeded selection programs; matches, order and builder calls against a reference interpreter under seeded schedules",
 "C09": "seeded content/structure programs with stalling streams against a reference interpreter",
 "C10": "seeded attribute programs over shared values, interleaved clients, against a reference interpreter",
 "C11": "lazy, stalling and shared item queues, failing and crashing clients; one copy per item against a reference interpreter",
 "C12": "error and crash injection at every kind of user-supplied part; first error, silence afterwards, retry after heal",
 "C13": "up to five interleaved clients with failures, panics and torn content; solo replay, template snapshots, token and allocation accounting",
 "C14": "chains of seeded transforms with faults; every result checked for balance and re-parsed",
 "C15": "content streams stalling in seeded bursts; stalled and unstalled executions compared, call counts bounded by the reference",
 "C16": "hostile text inserted through every constructor, stored on and reloaded from the simulated disk over generations; decoded and structurally compared",
 "C17": "seeded conditional/delegating programs with stalls and failures in delegates against a reference interpreter",
}
NOTE = ("Seeded search, not exhaustive: the property held in every simulated run of this seed (the counts are in the evidence file). "
        "The whole crate under test runs for real, with debug assertions and overflow checks; stubbed are the disk (open/read/close of the C library), "
        "sinks, clocks, randomness and the parts a user supplies. Trusted: the reference parser and interpreter in sim/src/model.rs and sim/src/prog.rs, "
        "the simulator, rustc and std.")
EXTRA = {
 "C14": " Inserted names with a quote or a leading exclamation mark are not drawn at random; they are fixed probes (three known findings).",
 "C16": "", "C13": " Allocation balance is measured with a counting global allocator.",
}
NA = {
 "C18": "Validating and comparing an identifier is a pure function of one string: no I/O, time, schedule, fault or history for a simulation to vary. (Valid and invalid names still occur throughout C08, C10 and C12.)",
 "C19": "Splitting a selector string is a pure function of one string: nothing for a simulation to schedule or to fail. (Valid and invalid selectors still occur throughout C08 and C12.)",
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH + T[i],
        "level": "exploration",
        "level_note": NOTE + EXTRA.get(i, ""),
    })
json.dump({
    "version": 1,
    "setup_cmd": "./check.sh --build",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks were needed in /repo: every seam is a trait or closure of the public API, or a C library call interposed in the simulator binary. Replay a violation with: sim/target/release/sim replay <file>.",
}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
