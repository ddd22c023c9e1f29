#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry of checks."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks  # noqa: E402

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ("TLA+ model of the class-file format (spec/ClassFile.tla) model-checked with TLC on generated families of "
        "inputs; every behaviour is replayed into the real parser and the complete reported value (or the rejection) compared")
NOTE = ("Every behaviour of the specification over the listed families is explored by TLC (design invariants checked in every "
        "state) and replayed exactly; inputs outside the families are not covered. Trusted: the specification as a reading of "
        "JVMS 4, TLC, and the harness's serialisation of reported values.")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {
        "guard": "verif-hooks",
        "enable": "Cargo feature verif-hooks of cafebabe (harness feature 'hooks'): cargo build --features hooks in /verif/harness",
        "source_commits": ["373bc281e55220c5ffc43b8a2a5ea04a30d0f48d", "595b22088f137bab11c4888c621dfbca29c36134"],
    },
    "checks": [],
    "not_applicable": [],
}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py " + i,
            "technique": checks.TECHNIQUE.get(i, BASE),
            "level": "model_checking",
            "level_note": checks.NOTE.get(i, NOTE),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "The check for it is not built yet."})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
