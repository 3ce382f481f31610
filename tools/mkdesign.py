#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*.md, the properties, the checks and the table of planted bugs."""
import ast
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from propdefs import PROPS  # noqa


def text(name):
    with open(os.path.join(HERE, "design", name)) as f:
        return f.read().strip()


def consts(pid):
    tree = ast.parse(open(os.path.join(ROOT, "checks", pid.lower() + ".py")).read())
    out = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ("RULE", "ASSUMPTIONS"):
            out[node.targets[0].id] = ast.literal_eval(node.value)
        if isinstance(node, ast.FunctionDef) and node.name == "minimum":
            for d in ast.walk(node):
                if isinstance(d, ast.Dict) and "MIN" not in out:
                    out["MIN"] = {ast.literal_eval(k): ast.unparse(v) for k, v in zip(d.keys, d.values) if isinstance(k, ast.Constant)}
    return out


out = [text("head.md"), "", "## 4. The properties", ""]
for p in sorted(PROPS, key=lambda p: p["id"]):
    c = consts(p["id"])
    out += [f"### {p['id']}: {p['title']}", "", "*Decided by* " + p["tech"] + ".", "", "*Workload and oracle.* " + c["RULE"], "",
            f"*Quantified over* {p['quant']}; *why tests can't settle it*: {p['why']}.", ""]
    if c.get("ASSUMPTIONS"):
        out += ["*Taken as right*: " + "; ".join(x.rstrip(".") for x in c["ASSUMPTIONS"]) + ".", ""]
    if c.get("MIN"):
        out += ["*A quick run must at least observe* " + ", ".join(f"{k.replace('_', ' ')} {v}" for k, v in c["MIN"].items()) + ".", ""]
rows = json.load(open(os.path.join(HERE, "design", "catches.json")))
table = "| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
for sid in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", sid, "meta.json")))
    table += f"| {sid} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {rows.get(sid, '')} |\n"
tail = text("tail.md").replace("{leftouts}", text("leftouts.md")).replace("{uncovered}", text("uncovered.md")).replace("{catches}", table)
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n" + tail + "\n")
