#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and registry.py."""
import json
import os
import subprocess

from props import PROPS
from registry import PROPERTIES

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            if p["id"] not in PROPERTIES:
                continue
            q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
            f.write(json.dumps(q, ensure_ascii=False) + "\n")
    checks = []
    for p in PROPS:
        if p["id"] not in PROPERTIES:
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 /verif/run.py --property %s --tier quick" % p["id"],
            "thorough_cmd": "python3 /verif/run.py --property %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": PROPERTIES[p["id"]]["level"],
            "level_note": p["note"],
        })
    manifest = {
        "version": 1,
        "setup_cmd": "g++ --version >/dev/null && python3 -c 'import json'",
        "checks": checks,
        "not_applicable": [],
        "notes": "Every check compiles its harness against /repo's working tree; no hooks are needed in /repo. "
                 "See DESIGN.md; defects found and repaired are listed in known_findings.json.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
