#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "P01": "model-based histories of accesses against a table", "P02": "generated matrices against element-wise definitions with rounding bounds",
 "P03": "generated layers against a reference with rounding bounds; row-independence relations", "P04": "generated gradients against an analytic reference and numerical differences",
 "P05": "masks read off outputs, gradients checked against them; frequency tests", "P06": "generated batches against a reference; permutation relations", "P07": "gradients against a reference and slopes of the library's own loss",
 "P08": "histories of updates against a reference and closed forms", "P09": "histories of updates against a reference and closed forms", "P10": "stateful histories against a model of the chain",
 "P11": "composition against a reference; split, permutation and repetition relations", "P12": "model gradients against backpropagation in the reference and slopes of the loss",
 "P13": "training histories against a reference training loop", "P14": "twin models with and without observation, compared to the bit", "P15": "evaluations against those of the raw outputs",
 "P16": "generated predictions against counted fractions; permutation relations", "P17": "round trips over all bit patterns and histories", "P18": "differential testing against an independent encoder and decoder",
 "P19": "structured mutation, truncation and random fuzzing of the loaders under a memory limit", "P20": "histories of saves and loads with faults against a model of the files",
 "P21": "multiset invariants and uniformity statistics over repeated shuffles", "P22": "distribution statistics over generated layers", "P23": "histories of set-ups and trainings against expected log entries",
 "P24": "interleavings and concurrent runs against runs alone, under the race detector", "P25": "histories with wrong shapes against twins without them", "P26": "generated labels against definitions; inverse relation",
 "P27": "generated sizes and hyperparameters, limits included, against the stated conditions", "P28": "generated convex problems against their known optimum",
 "P29": "generated matrices against the definitions with rounding bounds",
}
checks = []
for line in open(os.path.join(here, "properties.jsonl")):
    i = json.loads(line)["id"]
    checks.append(dict(property=i, quick_cmd="./run.py %s --tier quick" % i, thorough_cmd="./run.py %s --tier thorough" % i,
        technique="property-based testing (rapid): " + T[i], level="exploration",
        level_note="Random search over the generators described in the evidence file's rule, shrunk to a replay file on failure; trusts the oracle in harness/ and the generators' reach, and gives no guarantee for inputs not generated."))
m = dict(version=1, setup_cmd="./run.py BUILD", checks=checks, not_applicable=[],
    notes="All checks are black-box and build the library from /repo's working tree; no hooks. ./replay.sh FILE runs a failing case again. See DESIGN.md.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
