#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. PENDING lists properties without a check."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PENDING = {}
T = {
 "C01": "property-based testing: generated view chains against an index-map reference model",
 "C02": "property-based testing: generated view chains; layout claims checked against real element addresses",
 "C03": "stateful model-based testing: generated histories of views, copies and writes against a shared-buffer model",
 "C04": "property-based testing: generated operands and layouts against the scalar operators",
 "C05": "property-based testing: generated targets, aliasing operands and read-only arrays against a whole-buffer model",
 "C06": "property-based testing: generated arrays, layouts and axes against a reference fold",
 "C07": "property-based testing: generated constructor arguments against exact rational references",
 "C08": "property-based testing: generated bounds and shapes; bounds on every sample, statistical oracles over bulk samples",
 "C09": "property-based testing: generated arrays and axes; iteration against coordinate enumeration",
 "C10": "property-based testing: generated valid and invalid indices and ranges against a bounds model",
 "C11": "property-based testing: generated operands and layouts against the defining sums",
 "C12": "property-based testing: generated subscripts, operands and layouts against brute-force summation",
 "C13": "fuzzing of ill-formed requests: every generated invalid call must panic and leave all state unchanged",
 "C14": "property-based testing: generated expression graphs against a scalar-tape reverse-mode reference",
 "C15": "stateful model-based testing: generated gradient histories against a scalar-tape reference",
 "C16": "stateful fuzzing of call histories under a guard-page allocator with an allocation ledger",
 "C17": "differential property-based testing: tensor programs against the same array programs",
 "C18": "metamorphic property-based testing: equal contents in different layouts, single-element perturbations, text re-parsing",
 "C19": "property-based testing: generated values and type pairs against exact cast rules and round trips",
 "C20": "metamorphic property-based testing: snapshots before and after, and repeated execution",
 "C21": "generated programs (fuzzing the type-level API): compiled by rustc and judged by a borrow model",
 "C22": "differential property-based testing of the accelerated build against reference models with contract-checking stand-in libraries",
}
NOTE = "Searches a large generated space each run (counts, non-triviality rule and samples in the evidence file); it does not prove the absence of violations. Trusts the reference model in /verif/harness and rustc."
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "cfg(all(neon_simd, not(target_arch = \"aarch64\")))", "enable": "accel/run.sh passes --cfg neon_simd and --extern neon_shim=libneon_shim.rlib to rustc; every other check uses the public API only", "source_commits": ["0e45253"]},
     "checks": [], "not_applicable": [{"property": i, "reason": PENDING[i]} for i in ids if i in PENDING],
     "notes": "check.sh ID quick|thorough builds the harness for one property from /repo's working tree and runs it; check.sh ID replay FILE reruns a recorded failure. See DESIGN.md."}
for i in ids:
    if i in PENDING: continue
    m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                        "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration", "level_note": NOTE})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1); open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
