#!/usr/bin/env python3
"""For each fixed finding: does its property's check report it again once the fix is reverted? Usage: reverts.py [PROP...]"""
import os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[1:]
D = "/tmp/pv_reverts"
for line in open(V + "/KNOWN_FINDINGS.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    if not m or only and m[1] not in only and m[2] not in only:
        continue
    if not os.path.exists(f"{V}/checks/{m[1].lower()}.py"):
        print("no check", line.strip()[:110]); continue
    shutil.rmtree(D, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", D], check=True)
    subprocess.run(["cp", "-a", "/repo/sdk/python/lib/.", D + "/sdk/python/lib/"], check=False)
    r = subprocess.run(["git", "-C", D, "-c", "user.name=x", "-c", "user.email=x@x", "revert", "--no-edit", m[2]], capture_output=True, text=True)
    if r.returncode:
        print("CONFLICT", line.strip()[:110]); continue
    env = dict(os.environ, PV_REPO=D)
    r = subprocess.run(["python3", V + "/run.py", m[1]], capture_output=True, text=True, env=env)
    kinds = re.findall(r"^  \[(\S+)\] x(\d+)", r.stdout, re.M)
    print("caught" if r.returncode == 1 else f"MISSED ({r.returncode})", line.strip()[16:100], kinds, flush=True)
shutil.rmtree(D, ignore_errors=True)
