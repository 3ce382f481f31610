#!/usr/bin/env python3
"""Validates a planted bug and shows which check catches it: seedtool.py ID [PROP ...]. A dirty /repo becomes the patch of a new ID.

Only for development: no check reads /verif/seeded."""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    sid, props = sys.argv[1], sys.argv[2:]
    d = os.path.join(ROOT, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    patch = os.path.join(d, "patch.diff")
    if sh("git -C /repo diff --quiet").returncode:
        with open(patch, "w") as f:
            f.write(sh("git -C /repo diff").stdout)
        sh("git -C /repo checkout -- .")
    meta = json.load(open(os.path.join(d, "meta.json")))
    if os.path.exists(os.path.join(d, "demo.py")) and "from mini import" in open(os.path.join(d, "demo.py")).read():
        shutil.copy(os.path.join(ROOT, "tools", "mini.py"), os.path.join(d, "mini.py"))
    if os.path.exists(os.path.join(d, "demo.py")) and "from fakecli import" in open(os.path.join(d, "demo.py")).read():
        shutil.copy(os.path.join(ROOT, "tools", "fakecli.py"), os.path.join(d, "fakecli.py"))
    if not os.path.exists(os.path.join(d, "demo.sh")):
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexport PYTHONPATH="$PWD/sdk/python/lib" PYTHONDONTWRITEBYTECODE=1\n'
                    'exec timeout 120 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    sh("bash /opt/vp/build.sh")
    demo = f"cd /repo && bash {d}/demo.sh"
    r = sh(demo)
    print("demo unpatched:", r.returncode, "" if r.returncode == 0 else r.stdout[-600:] + r.stderr[-1500:])
    if sh(f"git -C /repo apply {patch}").returncode:
        print("PATCH DOES NOT APPLY")
        return
    try:
        sh("bash /opt/vp/build.sh")
        sh("bash /opt/vp/test.sh /tmp/seed_out.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        out = json.load(open("/tmp/seed_out.json"))
        stable = base["stable"]
        passed = set(out.get("passed", []))
        missing = [t for t in stable if t not in passed] if isinstance(stable, list) else "?"
        print("stable tests broken:", missing)
        r = sh(demo)
        print("demo patched:", r.returncode, (r.stdout + r.stderr)[-400:])
        for p in props or [meta["property"]]:
            for seed in ("1", "2", "3"):
                r = sh(f"VERIF_SEED={seed} python3 run.py {p}", cwd=ROOT)
                print(p, "seed", seed, "exit", r.returncode, "\n   " + "\n   ".join(x[:300] for x in r.stdout.splitlines() if x.startswith(("  [", "VIOL", "ERR", "HELD")))[:1200])
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")


main()
