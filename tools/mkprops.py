#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py, for the checks that exist."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from propdefs import PROPS, NOT_APPLICABLE  # noqa

checks, lines, na = [], [], []
for p in PROPS:
    pid = p["id"]
    assert len(p["title"]) <= 80, (pid, len(p["title"]))
    have = os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py"))
    if not have:
        print("no check yet:", pid)
        continue
    for f in p["files"]:
        assert os.path.exists(os.path.join("/repo", f)), f
    lines.append(json.dumps({
        "id": pid, "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p["observe"], "hook_needed": None},
    }, ensure_ascii=False))
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 run.py {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": p["tech"],
        "level": "exploration",
        "level_note": p["note"],
    })
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    f.write("\n".join(lines) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "checks": checks,
        "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks are needed in /repo: the monitors sit on the SDK's process boundary (the engine's RPC interface, the CLI "
                 "command line, the file system) and on its public API. All commits in /repo are fixes, see KNOWN_FINDINGS.txt.",
    }, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
