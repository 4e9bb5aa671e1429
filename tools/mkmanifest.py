#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules present and the list below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "value numbering of inlined LLVM IR to polynomial normal forms; per-iteration balance identity",
    "C02": "value numbering with the bond damage fixed to one; increments must normalise to zero",
    "C03": "effect and monotonicity dataflow on the bond-damage quantity",
    "C04": "value numbering with symbolic shifts; dependence check on normal forms",
    "C05": "unit-of-measure inference by linear unification on normal forms",
    "C06": "index typing of every quantity access (stride, component, bond lockstep)",
    "C07": "must-reset-before-accumulate dataflow",
    "C08": "effect analysis on quantity and time level",
    "C09": "declared-before-use analysis of quantities and time levels",
    "C10": "registry consistency over all registration and lookup sites",
    "C11": "typestate of run-time expression objects",
    "C12": "must-test dataflow on database status values",
    "C13": "rank taint and control dependence of collective calls",
    "C14": "reduction operator and neutral element agreement",
    "C15": "terms for file names and quantities in the inlined restart functions; agreement of the write and read tables",
    "C16": "room of every text buffer against the longest text each write can produce",
    "C17": "rational normal forms of the modulus conversions",
    "C18": "value numbering with pinned condition kinds and unknowns; treatment typestate of residual, tangent and increment",
    "C19": "per-name path exploration of the selecting functions; agreement with the reported names",
    "C20": "pinned value numbering with a save/perturb/evaluate/restore dataflow",
    "C22": "exchange dataflow over the solver functions: change, hand-over, use",
    "C23": "exchange dataflow to the output and path rules on the step loops",
    "C21": "value numbering under axis relabelling; equality of normal forms",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
na_file = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(na_file):
    NA = json.load(open(na_file))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "vlib", "rules", i.lower() + ".py")) and i not in NA:
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, evidence_file="evidence/%s.json" % i,
                           technique="static analysis: " + TECH[i], level="other",
                           level_note="decided from the compiled (not executed) source on every run; see DESIGN.md for the rule, its bounds and assumptions"))
    else:
        na.append(dict(property=i, reason=NA.get(i, "rule not built yet")))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
         notes="Static analysis only. All checks read the working tree of /repo (VERIF_REPO overrides), compile it with clang to LLVM IR and analyse that. Cache in .cache/ keyed by tree content.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
