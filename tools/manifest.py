#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below; a property without a harness file is listed as not applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXH = "stateless model checking of the real code: exhaustive enumeration of "
T = {
 "C01": (EXH + "calls and call sequences with a block-accounting allocator and AddressSanitizer", "every operation on every small case and every sequence up to the depth bound; memory state compared with the ownership model after each call"),
 "C02": (EXH + "creation requests against a reference model", "all shapes/types/devices/buffer lengths in the bounds"),
 "C03": (EXH + "shapes, layout orders and coordinates", "all shapes and all layout permutations in the bounds, boundary coordinates for huge shapes"),
 "C04": (EXH + "calls under differing memory histories, and operation sequences against a pure functional model", "bounded by the case catalogue and the sequence depth"),
 "C05": (EXH + "operands against C arithmetic", "all 8-bit pairs, boundary alphabets for the wider types, all shapes and lengths in the bounds"),
 "C06": (EXH + "values, type pairs and shapes against C conversion", "all 8- and 16-bit values; thorough: all 2^32 float patterns"),
 "C07": (EXH + "shapes, target shapes and axis lists against a reference model", "bounded ranks and lengths"),
 "C08": (EXH + "slice parameters against a reference model", "bounded ranks and lengths, extreme integers"),
 "C09": (EXH + "pairs of shapes against the broadcast rule", "bounded ranks and lengths"),
 "C10": (EXH + "operand shapes against the mathematical product", "bounded ranks and lengths, contents exact in every summation order"),
 "C11": (EXH + "operand shapes against the five cases of dot", "bounded ranks and lengths, contents exact in every summation order"),
 "C12": (EXH + "convolution geometries against the definition", "bounded geometries; contents exact in every summation order"),
 "C13": (EXH + "pooling geometries against the definition", "bounded geometries"),
 "C14": (EXH + "shapes, axes and parameters against the definition", "bounded ranks and lengths"),
 "C15": (EXH + "shapes, axes and value alphabets against the definition", "bounded ranks and lengths"),
 "C16": (EXH + "values, shapes and positions against the mathematical function", "all 8/16-bit values; thorough: all 2^32 float patterns"),
 "C17": (EXH + "answers of the random source", "all 100 residues for one element, all keep/zero combinations for up to 8 elements"),
 "C18": (EXH + "ill-formed requests, each followed by a valid one", "bounded request space, one and several defects"),
 "C19": ("exhaustive enumeration of memory-fault points on the real code (each k-th request refused, once and persistently)", "every request of every small case"),
 "C20": (EXH + "calls and swap points with a tagging allocator", "every operation, a swap at every position of bounded sequences"),
 "C21": ("stateless model checking of two threads on the real code: every interleaving of conflicting accesses within the preemption bound, scheduled at instrumented memory accesses", "preemption bound 2; sequentially consistent interleavings of instrumented accesses; with no conflicting access all interleavings are equivalent"),
 "C22": (EXH + "holder operation sequences against an ownership model", "sequence depth bound; AddressSanitizer"),
 "C23": (EXH + "types and byte lengths with guard bytes", "all lengths up to the bound"),
 "C24": (EXH + "deviations of a user implementation run through the real typed test suites", "every deviation kind at every input and element"),
}
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if not os.path.exists(f"{V}/harness/{p.lower()}.cpp"):
        na.append(dict(property=p, reason="check under construction")); continue
    checks.append(dict(property=p, quick_cmd=f"./check {p} --tier quick", thorough_cmd=f"./check {p} --tier thorough", technique=T[p][0],
                       level="fault_enumeration" if p == "C19" else "model_checking",
                       level_note="Holds for everything explored: " + T[p][1] + ". Trusts gcc/clang, the explorer and the reference model in /verif/harness; see DESIGN.md for exact bounds."))
json.dump(dict(version=1, setup_cmd="python3 -m py_compile check && g++ --version && clang --version", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
