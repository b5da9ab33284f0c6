#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json (one file per property)."""
import json, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for f in sorted(glob.glob(here + "/tools/props/*.json")):
    p = json.load(open(f))
    c = p.pop("check")
    props.append(p)
    if "not_applicable" in c:
        na.append({"property": p["id"], "reason": c["not_applicable"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./run.sh {p['id']}",
        "thorough_cmd": f"env VERIF_TIER=thorough ./run.sh {p['id']}",
        "technique": c["technique"],
        "level": "exploration",
        "level_note": c["note"],
    })
with open(here + "/properties.jsonl", "w") as o:
    for p in props:
        o.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "cfg(mozak_verif)", "enable": "pkg/circuits/build.rs and pkg/node/build.rs print cargo:rustc-cfg=mozak_verif; no build of /repo itself does", "source_commits": ["488e010", "b897b25"]},
     "notes": "The checks build /repo's sources through the manifests in pkg/. Replay: ./run.sh <id> --replay <file>."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(here + "/MANIFEST.json", "a").write("\n")
