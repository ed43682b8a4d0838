#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "..", "properties.jsonl"))]
ch = []
for p in ids:
    if p in PROPS:
        c = PROPS[p]
        ch.append(dict(property=p, quick_cmd=f"python3 tools/check.py {p}", thorough_cmd=f"python3 tools/check.py {p} --thorough", evidence_file=f"evidence/{p}.json",
            technique=c.get("technique", "deductive verification of contracts on the extracted source (Verus/Z3), failing obligations reported; bounded replay of the same contracts on the real crate for counterexamples"),
            level=c["level"], level_note=c["note"]))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "not built yet: no contract discharged so far")) for p in ids if p not in PROPS]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=ch, not_applicable=na, notes="No hooks: the checks read /repo's source text and build the public crates; /repo carries only fix: commits.")
json.dump(m, open(os.path.join(H, "..", "MANIFEST.json"), "w"), indent=1); open(os.path.join(H, "..", "MANIFEST.json"), "a").write("\n")
