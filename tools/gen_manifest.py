#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
NA.update(getattr(props, "NOT_APPLICABLE", {}))
checks = []
for i in ids:
    if i in props.PROPS:
        checks.append(dict(
            property=i, quick_cmd=f"python3 tools/check.py {i} quick", thorough_cmd=f"python3 tools/check.py {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique="symbolic execution of the LLVM IR of the real crates with z3 deciding every branch and assertion (own engine), counterexamples replayed natively",
            level="model_checking",
            level_note=props.PROPS[i].get("note", "Bounded: holds for every input within the bounds listed in the evidence file; trusts the engine (cross-checked against native runs), rustc's IR and z3.")))
na = [dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in props.PROPS]
json.dump(dict(version=1, setup_cmd="python3 tools/build.py", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
