#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (between the markers) from evidence/*.json (quick runs) and build/catch.txt
(the output of tools/catch.sh)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = {
"C01": ("every call of the catalogue, of the small spaces of all 24 entry points and of the call spaces of C05–C16; destruction in every state and order; sequences of 4 (5) steps over three slots", "set of live blocks = blocks of the tensors held; AddressSanitizer"),
"C02": ("create/full/accessors/resolve over S × types × devices × buffer lengths, counts up to 2^34", "record of what was asked for"),
"C03": ("all coordinates of S under every layout order, boundary coordinates up to 2^60 elements, shapes of up to 300 dimensions", "closed formulas, mutual inversion"),
"C04": ("catalogue, small spaces and call spaces, pairs (triples) of calls, reuse of handles and addresses, sequences", "the same call alone in fresh memory; functional model; before/after images"),
"C05": ("all 8-bit pairs, 16-bit values against boundary values (all pairs), boundary values and bit patterns of the wider types, S, lengths, > 2^31 elements", "C arithmetic, bit for bit"),
"C06": ("all 8- and 16-bit values, boundaries and bit patterns × 10 × 10 types, S, lengths, > 2^31 elements", "C conversion, bit for bit"),
"C07": ("S × every target shape of equal count, every axis list, extreme lengths, 9..300 dimensions, > 2^31 elements", "row-major order of the input"),
"C08": ("every begin/size/step of small dimensions (valid or not), ranks up to 300, huge steps, > 2^31 elements", "index arithmetic in 128 bits"),
"C09": ("all pairs of shapes up to 4–5 dimensions incl. length 0, boundary lengths up to 2^62, up to 300 dimensions; directly and through matmul", "the rule as stated; guard words around the result"),
"C10": ("all pairs of shapes up to rank 3, families up to rank 5 and 300, unit contents at every position, lengths 1..300, > 2^31", "sum of products in 128 bits / exact dyadics"),
"C11": ("as C10 for the five cases", "as C10"),
"C12": ("every geometry of small lengths in 1–3 dimensions × groups and channels, unit contents, extreme parameters, > 2^31", "definition of convolution, exact contents"),
"C13": ("every geometry × mode × type × sign of contents, extremes, invalid parameters, > 2^31", "definition of pooling"),
"C14": ("shapes × axis × epsilon × contents, unit contents, magnitudes, every mismatched parameter", "long double evaluation with error bound"),
"C15": ("shapes × every axis, extremes of float and double, dominating elements, lengths", "long double evaluation with error bound"),
"C16": ("all 16-bit values, all leading bit patterns of float and double (thorough: every float), S, lengths, > 2^31", "long double evaluation; exact for ReLU and integer roots"),
"C17": ("every answer of the random source in 0..99 and at the ends of its range, all masks of up to 8 (12) elements, every rate k %, pairs of start times", "count of zeroed elements, set of masks"),
"C18": ("every rejected call of the small spaces and call spaces, unknown element types, followed by valid calls", "before/after images, live blocks, results without history"),
"C19": ("every request of every call refused, alone or with all later ones; a second refusal; byte budgets; programs", "status, live blocks, images, result of the repeated call"),
"C20": ("catalogue, small spaces, call spaces × exchanges of the pair between calls, with refusals", "accounting at the installed pair"),
"C21": ("every pair of representatives on two threads (thorough: triples), all schedules up to 2 preemptions at conflicting accesses", "results of the serial orders; no race"),
"C22": ("sequences of up to 5 holder operations on input, result, sample and convolution holders", "ownership model; AddressSanitizer"),
"C23": ("every byte length 0..400 (beyond: boundaries) × 10 types × dirty memory", "values as stated, guard bytes"),
"C24": ("all operations of the harness × one deviation at a time in every position of every input", "gtest verdict of the real suites"),
}
rows = []
for i in sorted(W):
    d = json.load(open(f"{V}/evidence/{i}.json")); c = d["coverage"]
    sec = sum(s["wall_s"] for s in c["suites"])
    rows.append(f"| {i} | {W[i][0]} | {W[i][1]} | {len(c['suites'])} / {sum(s['executions'] for s in c['suites']):,} | {sec:.0f} |")
p = V + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"(?s)<!--TABLE-->.*?<!--END-->", lambda m: "<!--TABLE-->\n| id | what is enumerated (thorough) | oracle | suites / executions | seconds |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n<!--END-->", s)
meta = {}
for m in glob.glob(V + "/seeded/*/meta.json"): meta[m.split("/")[-2]] = json.load(open(m))
catch = {}
if os.path.exists(V + "/build/catch.txt"):
    for l in open(V + "/build/catch.txt", errors="replace"):
        m = re.match(r"(\w+) (C\d\d) rc=(\d+) \d+s ?(?:(C\d\d/[\w/]+):)?", l)
        if m and m[1] in meta and m[2] == meta[m[1]]["property"]: catch[m[1]] = (m[2], m[3], m[4] or "")
rows = []
for k in sorted(meta, key=lambda k: (meta[k]["property"], k)):
    c = catch.get(k)
    rows.append(f"| {k} | {meta[k]['property']} | {meta[k]['needs']} | " + ("?" if not c else (c[2].split("/", 1)[-1] or "yes") if c[1] == "1" else "**missed**") + " |")
s = re.sub(r"(?s)<!--CATCH-->.*?<!--END-->", lambda m: "<!--CATCH-->\n| planted bug | property | needs | caught by suite |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!--END-->", s)
f = len(re.findall(r"(?m)^fixed:", open(V + "/known_findings.txt").read())); kn = len(re.findall(r"(?m)^known:", open(V + "/known_findings.txt").read()))
s = re.sub(r"\d+ defects in `src/`", f"{f} defects in `src/`", s); s = re.sub(r"\d+ findings are in `auto_test/`", f"{kn} findings are in `auto_test/`", s)
open(p, "w").write(s)
