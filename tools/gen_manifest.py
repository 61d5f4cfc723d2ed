#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
oracle = {
    "C01": "set of one-positions",
    "C02": "model bits against raw words",
    "C03": "one model per clone",
    "C04": "offset arithmetic on a model vector",
    "C05": "one model vector for all parts",
    "C06": "in-range predicate, checked and release builds",
    "C07": "equality of models",
    "C08": "iterator over the model",
    "C09": "plain integer arithmetic",
    "C10": "recording backing, canaries, checked preconditions, AddressSanitizer",
    "C11": "plain vector of integers",
    "C12": "fits/in-range predicate and plain vector",
    "C13": "128-bit cut-out of raw words",
    "C14": "iterator over a plain vector",
    "C15": "prefix sums",
    "C16": "list of one-positions",
    "C17": "domain predicate, prefix sums",
    "C18": "relations between answers",
    "C19": "scan of the seven counters",
    "C20": "counting allocator against stated bounds",
    "C21": "text written from the model",
    "C22": "tree before and after a run of the real tool",
    "C23": "call record of stand-in programs and tree after",
    "C24": "sequential result of the same script",
    "C25": "register of live backings, counting allocator, AddressSanitizer",
}
m = dict(
    version=1,
    setup_cmd="./check setup",
    checks=[
        dict(
            property=p["id"],
            quick_cmd=f"./check {p['id']}",
            thorough_cmd=f"VERIF_TIER=thorough ./check {p['id']}",
            evidence_file=f"evidence/{p['id']}.json",
            technique=f"property-based testing: generated cases from a recorded choice sequence, oracle: {oracle[p['id']]}, shrinking to a replay file",
            level="exploration",
            level_note="Decided by search over generated cases. Cases, non-trivial cases and class counts of each run are in the evidence file; inputs outside them are not covered.",
        )
        for p in props
    ],
    notes="One script, ./check, builds the library from /repo in the needed builds (debug assertions, release, SIMD, AddressSanitizer) and runs the harness in 8 processes. Replay: ./check replay FILE. Listed and repaired findings: known-findings.txt.",
)
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
