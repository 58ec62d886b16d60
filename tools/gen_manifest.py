#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BOTH = ("Exhaustive TLC run over the listed small instances of the TLA+ specification (design), and TLC trace validation of every recorded call "
        "of the real library against the same specification (conformance). ")
COMP = ("TLC run over the TLA+ specification (design), and TLC trace validation of rustc's verdict on every generated program that uses the real "
        "library (conformance). ")
TRUST = "Trusts TLC, the JSON module, rustc and that the driver reports what the library returned; explores finitely many inputs (bounds in DESIGN.md)."
NA = []
NOTES = {
    "C01": "Index conversions of all layouts up to a bound, plus layouts up to 2^64 elements with arbitrary-precision arithmetic in the specification.",
    "C02": "Locations, strides, lengths of all layouts up to a bound and of huge layouts; single cell touched seen through a recording user container.",
    "C03": "All positions around the edge and huge indices, all four checked accessors, all object kinds, checked and optimised builds.",
    "C04": "Complete memory image compared after each write of each history; all reading paths compared.",
    "C05": "All windows of small parents, nested blocks, out-of-range and overflowing windows, larger parents at random.",
    "C06": "Complete memory image of the arena (guard cells included) after each write through mutable blocks at any depth.",
    "C07": "All split positions of all small matrices, interleaved writes, memory images, quadrants as operands.",
    "C08": "Expressions of all layout pairs and ownership modes and random trees, special values included.",
    "C09": "Operands with recorded reads: counts per element for construction, element read and evaluation.",
    "C10": "Result compared by every reading path, memory and stride; later writes to either side followed by full snapshots.",
    "C11": "All layout/stride/view combinations, shapes, coefficients with exactly representable values; memory image of all buffers.",
    "C12": "All small shape triples, matching or not; results with layout, dimension and memory; refused products leave memory as it was.",
    "C13": "All constructors and macros with all small dimensions and scalar types, refused shapes, evaluation count of the argument.",
    "C14": "Containers with sizes around the needed one, all slice ranges, guard cells, a recording container, huge layouts, checked and optimised builds.",
    "C15": "Values passed to the function and memory after it; generator replaced by a counting one and by the real one with known draws.",
    "C16": "Chains of shared and mutable references over matrices, views and expressions; all accessors, writes and refusals.",
    "C17": "Random programs over the whole interface; refinement of the layout-free specification (Logical.tla) by the layout-level one.",
    "C18": "Full-mantissa entries of all four scalar types, cancellation included; TLC computes the exact value and the rounding bound with arbitrary-precision arithmetic (BigNat, Floats).",
    "C20": "Programs enumerated from Borrow.tla (all sequences of up to 3 building calls, every possible last call; longer ones simulated) over 16 combinations of layout, size and scalar type are compiled; TLC compares the compiler's verdicts with the specification.",
    "C21": "All pairs (products: triples) of operand types in MCTyping.tla are compiled with the result type Typing.tla demands; TLC compares the compiler's verdicts with the specification.",
    "C19": "Bit patterns of all classes, quadrants and ratios; TLC decides by arbitrary-precision cosine and sine (Arctan).",
}
checks = []
for p in sorted(NOTES):
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "technique": "TLA+ specification, TLC model checking and trace validation",
        "level": "model_checking",
        "level_note": (COMP if p in ("C20", "C21") else BOTH) + NOTES[p] + " " + TRUST,
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": checks,
    "not_applicable": NA,
    "notes": "No hooks in /repo: the public API exposes all observed state (user-defined containers, raw pointers and recording operands). Defects found and repaired: known-findings.txt.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
