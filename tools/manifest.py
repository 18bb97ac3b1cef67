#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from /verif/properties.jsonl and the notes below."""
import json
T = {
 "tree": "deterministic simulation: seeded multi-client edit/query/crash histories on document trees, refinement against an ordered-tree model",
}
tech = {
 "C01": "deterministic simulation: seeded edit histories by several clients through arbitrary handles, every read compared with an executable tree model",
 "C02": "deterministic simulation: path queries at arbitrary points of seeded edit histories, node identities and order compared with a reference evaluator over the model",
 "C03": "deterministic simulation: random XPath after random histories and injected panics, compared with the same expression on a freshly parsed tree in another simulated process",
 "C04": "deterministic simulation: seeded histories of insertions between documents and within one, with drops and edits of sources, compared with a copying model",
 "C05": "deterministic simulation: seeded drop/delete/replace orders of handles, ancestors and documents under a poisoning simulated heap, compared with a model of detached trees",
 "C06": "deterministic simulation: each_node with scheduled callbacks that edit, query, nest, drop and panic at injected points, visit history checked against the snapshot",
 "C07": "deterministic simulation: save, crash and restart at arbitrary points of edit histories, reloaded tree checked against the model, repeated cycles",
 "C08": "deterministic simulation: simulated block device with torn, lost, reordered, duplicated, stale and corrupted sectors; reload judged by an independent XML reader, heap use bounded",
 "C09": "deterministic simulation: seeded interleaving of decoders over intact and damaged input, token histories compared with isolated runs; bounded progress and damage locality",
 "C10": "deterministic simulation: the real binary under a system-call and allocator shim that follows a seeded fault plan; output and status checked against the model",
 "C11": "deterministic simulation: seeded preemption at any basic block of the library across threads, random hash seeds, addresses, clock; transcripts compared with isolated processes",
 "C12": "deterministic simulation: seeded histories repeated under a simulated heap with exact accounting, including failed and panicking calls; no growth allowed",
 "C13": "deterministic simulation: results held across seeded later edits, drops and queries, re-read and compared with their recorded state and the model",
}
note = {
 "C10": "Sampled, not exhaustive: seeded fault plans over the calls the tool makes. Trusts the shim (sim/shim.c), the reference XML reader and pretty-printer in /verif/sim.",
 "C11": "Sampled schedules; a run is exactly repeatable from its seed. Weak memory orders are not simulated: one thread runs at a time and switches happen at basic blocks of the library.",
}
pure = {
 "P01": "parsing an expression string is a pure function of the string: no schedule, clock, I/O, crash or other party can change it, so simulation has nothing to decide",
 "P02": "arithmetic is a pure function of its operands, computed in one call without state, time, I/O or faults",
 "P03": "string functions are pure functions of their arguments, without state, time, I/O or faults",
 "P04": "comparisons and effective boolean values are pure functions of their operands (node comparisons, which depend on the history of the tree, are claimed under C02)",
 "P05": "scoping inside one expression is decided within a single pure evaluation (that nothing leaks from one evaluation into the next is claimed under C03)",
 "P06": "map and array values are computed within a single pure evaluation (their order's independence of hash seeds is claimed under C11)",
 "P07": "casts and type tests are pure functions of a value and a type",
 "P08": "whether a given string panics is a property of that string alone; no schedule or fault is involved (what a panic leaves behind is claimed under C03, C05, C06 and C12)",
 "P09": "tokenising a well-formed text is a pure function of the text (damage, interleaving and progress are claimed under C08 and C09)",
 "P10": "stack use is a function of nesting depth only, not of a schedule or a fault, and exceeding it is a documented limit of the recursive implementation",
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in tech:
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": tech[i], "level": "exploration",
            "level_note": note.get(i, "Sampled, not exhaustive: many seeded runs, each exactly repeatable. Trusts the reference model and generators in /verif/sim; sizes and lengths as in DESIGN.md.")})
    else:
        na.append({"property": i, "reason": pure[i]})
m = {"version": 1, "setup_cmd": "./check build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: scheduling, heap, hash seeds, clock and system calls are taken over from outside (compiler instrumentation of the library build, symbol interposition, a global allocator of the harness). Repairs of genuine defects are listed in known-findings.txt."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
