#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checkers present in mc/src/bin."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": "Every pair of layouts and every operator form within the bounds is executed on the real code and compared with an index-level reference model.",
    "C02": "Every target/right-hand-side layout pair within the bounds; the whole underlying buffer is compared with the model after each assignment.",
    "C03": "Explicit-state exploration of all distinct view states of bounded roots; every path to a state is replayed on the real code and compared element by element.",
    "C04": "Every write through every reachable view state (and sibling views), whole buffer compared afterwards.",
    "C05": "Every reachable view state; reported metadata compared with addresses measured on the real buffer.",
    "C06": "Every reachable view state; every axis set of the iterators; pairwise comparison of layouts.",
    "C07": "Every reachable view state and every axis list within bounds; extreme values; every position of the extremum.",
    "C08": "Every subscript string within the label/operand/dimension bounds and every layout combination; definition-level oracle.",
    "C09": "Every layout pair and size within bounds for the products, every axis pair and offset for diagonals.",
    "C10": "Every in-range and out-of-range request in an enumerated alphabet on every view state, in a checked and an unchecked build; guard pages on both sides of buffers decide out-of-bounds access.",
    "C11": "All histories up to a depth that the borrow rules allow, on an allocator that makes freed memory inaccessible and checks size, double free and leaks.",
    "C12": "Every expression graph in a bounded grammar and every subset of tracked inputs; oracle is exact forward-mode differentiation.",
    "C13": "All histories of forward/backward/reset/toggle operations to a depth, compared with a gradient-ledger model.",
    "C14": "Every graph shape with every order and time of dropping operands and aliases, with freed memory inaccessible.",
    "C15": "Every shape/nesting/argument combination in bounded grids for every dtype; oracle computed exactly.",
    "C16": "The random source is replaced by an enumerated one: every mantissa of single precision, extreme and boundary words of the others, all short streams.",
    "C17": "All values of 8/16-bit types and boundary sets of the wide ones for every dtype pair, and every layout.",
    "C18": "All tensor programs to a depth run in lock-step with the same program on plain arrays.",
}
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{here}/mc/src/bin/{i.lower()}.rs"):
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique="bounded exhaustive explicit-state model checking of the real code against a reference model",
            level="model_checking", level_note=NOTES[i] + " Exhaustive within the bounds written to the evidence file; trusts the reference model and rustc."))
    elif i == "C19":
        na.append(dict(property=i, reason="The accelerated backends only compile on AArch64 with NEON, on macOS (vDSP/Accelerate) or with a BLAS library; none is available in this x86-64 Linux sandbox, so there is no code to explore."))
    else:
        na.append(dict(property=i, reason="Check not built yet."))
m = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="none", enable="no hooks: the checks use the public interface only", source_commits=[]),
    checks=checks, not_applicable=na, notes="Each check rebuilds its checker crate (mc/) against /repo's working tree. Random numbers come from vendor/rand (rand 0.8.5 with an enumerable thread_rng), patched into the checker crate only. Repaired defects: KNOWN_FINDINGS.txt; design: DESIGN.md.")
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1); open(f"{here}/MANIFEST.json", "a").write("\n")
