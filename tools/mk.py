#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here); sys.path.insert(0, here)
from props import P
try: from props import HOOKS
except ImportError: HOOKS = None
with open(f"{root}/properties.jsonl", "w") as f:
    for e in P: f.write(json.dumps(e["p"], ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh"}
if HOOKS: m["hooks"] = HOOKS
m["checks"] = [{"property": e["p"]["id"], "quick_cmd": e["cmd"], "thorough_cmd": e["cmd"] + " --tier thorough", "evidence_file": f"evidence/{e['p']['id']}.json",
  "technique": e["technique"], "level": "exploration", "level_note": e["note"]} for e in P if e["cmd"]]
m["not_applicable"] = [{"property": e["p"]["id"], "reason": e["na"]} for e in P if e["na"]]
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1, ensure_ascii=False); open(f"{root}/MANIFEST.json", "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for e in P: jsonschema.validate(e["p"], json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print("valid", len(P), "properties", len(m["checks"]), "checks")
except ImportError: print("no jsonschema")
