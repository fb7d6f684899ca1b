#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below (run by hand after editing)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": ("generated CSV files in many spellings, round-trip against the values written", "reads back every value bit for bit; trusts Rust's own number parser"),
 "C02": ("generated class files, exact one-hot oracle and out-of-range fault", "exact comparison; negative or fractional classes are outside the domain"),
 "C03": ("fault injection into generated well-formed files", "every faulty file must be refused, and its faultless original must load; blank lines are not rows"),
 "C04": ("stateful random partition sequences against a naive row-by-row model", "exact comparison of both partition forms after every step; finite features"),
 "C05": ("random datasets against a brute-force search over all thresholds", "optimality up to a derived rounding bound of the gain"),
 "C06": ("random datasets and level limits; node-by-node brute-force validation of every tree kind; deeper-tree refinement relation", "greedy optimality per node up to a derived rounding bound; structure exact"),
 "C07": ("random datasets; routing every training row and comparing with the leaf contents", "exact multiset comparison per leaf"),
 "C08": ("random trees (trained and hand-made) against a reference error from routed training rows; monotonicity in the level limit", "relative tolerance 1e-9"),
 "C09": ("random trees (trained and hand-made) against a majority-count reference", "exact; ties must give the lowest class"),
 "C10": ("differential: the same training single-threaded, on pools of 1/2/3/8 threads, repeated, interleaved and concurrent", "bit-exact comparison of whole models; interleavings are those the scheduler happens to produce"),
 "C11": ("differential: presorted builder against standard builder", "exact except where two questions are equally good within the rounding bound"),
 "C12": ("metamorphic: monotone maps, added columns, label scaling, row permutation and repetition", "bit-exact relations between two trainings"),
 "C13": ("random trainings replayed stage by stage from the model's own trees against a reference of the residuals; prefix relation; hand-made ensembles with exact sums", "tolerances derived from the rounding of residuals and means"),
 "C14": ("random trainings replayed stage by stage against reference softmax residuals and the leaf formula; prefix relation; hand-made ensembles with exact sums", "leaf outputs checked by backward error against the formula"),
 "C15": ("random trainings replayed stage by stage with each leaf's stored class and value; prefix relation; hand-made ensembles with exact sums", "leaf outputs checked by backward error against the formula"),
 "C16": ("long random trainings past softmax saturation; invariant over the history of all iterations", "finite outputs on any data, correct classes after every iteration on separable data; up to about 20,000 iterations"),
 "C17": ("random models and test-set compositions; batch against single predictions, scores against definitions, concurrent readers", "bit-exact predictions; scores within 1e-10"),
 "C18": ("random vectors against scalar references; mismatched lengths", "bit-exact element-wise operations, rounding bound for sums"),
 "C19": ("random trees printed, captured and parsed back against the tree", "exact names, thresholds, leaf data and nesting"),
 "C20": ("random training histories; training error and mean prediction after each iteration", "error non-increasing and mean preserved up to derived rounding bounds"),
 "C21": ("end-to-end runs of the program on generated file sets against an ensemble trained in-process", "reported numbers within 1e-9 relative of the library's"),
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    tech, note = T[i]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "property-based testing: " + tech,
        "level": "exploration",
        "level_note": note + ". Assurance is for the generated cases only.",
    })
json.dump({"version": 1, "setup_cmd": "./build.sh main", "checks": checks, "not_applicable": [],
           "notes": "Harness crate in /verif/harness (path dependencies on /repo, no hooks needed). Replay a violation with: harness/target/release/vh replay FILE (C21 needs VH_MAIN_BIN as in check.sh)."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
