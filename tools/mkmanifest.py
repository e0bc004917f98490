#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a harness body."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = sorted(os.path.basename(f)[2:-2] for f in glob.glob(H + "/harness/p_C*.c"))
T = "explicit-state model checking of the real library: exhaustive bounded enumeration of %s, every reached object state compared bit by bit with a reference model"
spec = {
 "C01": "fields and operand pairs", "C02": "operands and table entries", "C03": "access sequences, positions, fields and windows",
 "C04": "shapes, basis states and dirty targets", "C05": "start columns, shapes, scalars and windows", "C06": "start columns, shapes, scalars and windows",
 "C07": "shapes, sub-rectangles and dirty targets", "C08": "shapes, scalars, aliasing patterns and windows", "C09": "algorithms, shapes, cutoffs and operand states",
 "C10": "algorithms, coefficient pairs, shapes and operand states", "C11": "operand lengths, coefficient pairs and bilinear-map plans", "C12": "algorithms, shapes, cutoffs and systems",
 "C13": "matrices (complete small spaces; rank and pivot families) and algorithms", "C14": "matrices (complete small spaces; rank and pivot families) and algorithms",
 "C15": "invertible matrices", "C16": "permutations, shapes and windows", "C17": "tables, rows, start columns and reuse histories",
 "C18": "the call sequences of all other bodies on an instrumented build", "C19": "entry points and mismatches", "C20": "shapes, fields and contents",
 "C21": "build configurations and switch neighbourhoods", "C22": "operation histories (breadth-first with state deduplication)",
 "C23": "ordered pairs of operations and memory fills", "C24": "answers of the random source", "C25": "allocation-failure points of every operation",
 "C26": "layouts of several windows in one matrix, operations and shapes"}
props = {json.loads(l)["id"]: json.loads(l) for l in open(H + "/properties.jsonl")}
note = ("Every case of the stated bounded space is executed on the library built from the working tree and judged by an independent model "
        "(shift-and-xor field arithmetic, schoolbook matrix algebra). Nothing is claimed beyond the bounds in DESIGN.md. Trusted: gcc, the installed libm4ri, the model in harness/core.c.")
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                 "technique": (T % spec[p]) if p not in ("C18", "C25") else
                   ("exhaustive enumeration of single-allocation-failure points and allocation balances over the operation catalogue, on the real library" if p == "C25" else
                    "explicit-state model checking: the exhaustive bounded enumerations of all properties executed on an ASan/UBSan build with assertions, the sanitizer as state invariant"),
                 "level": "model_checking", "level_note": note} for p in have],
     "not_applicable": [{"property": p, "reason": "no check built yet"} for p in props if p not in have],
     "notes": "No hooks in /repo: interposition happens at link time (m4ri_die, allocation, random)."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(have), "checks")
