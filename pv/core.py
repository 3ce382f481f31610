"""Driver: plans cases, shards them over worker processes, aggregates verdicts, writes evidence.

Verdicts are three-valued: exit 0 = held on everything observed, exit 1 (+ VIOLATION line) = violated,
exit 2 = inconclusive (a worker died, a watchdog fired, or the deciding monitor was never reached).
"""
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PV_REPO", "/repo")
SDK = os.path.join(REPO, "sdk/python/lib")
PY = os.environ.get("PV_PYTHON", "/opt/venv/bin/python")
FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def worker_env(cache):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("PULUMI_"):
            del env[k]
    env["PYTHONPATH"] = SDK + os.pathsep + VERIF
    env["PYTHONHASHSEED"] = "0"
    # Never reuse byte code compiled from another state of the tree, never write any into it.
    env["PYTHONPYCACHEPREFIX"] = cache
    env["PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION"] = env.get(
        "PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION", ""
    )
    if not env["PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION"]:
        del env["PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION"]
    env["GRPC_VERBOSITY"] = "NONE"
    env["GRPC_ENABLE_FORK_SUPPORT"] = "0"
    return env


def known_findings(prop):
    """KNOWN_FINDINGS.txt lines: `known: property=<id> key=<mechanism key> <text>`; `fixed:` lines suppress nothing."""
    out = {}
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("known:"):
                    continue
                parts = line.split(None, 3)
                if parts[1] == f"property={prop}" and parts[2].startswith("key="):
                    out[parts[2][4:]] = parts[3] if len(parts) > 3 else ""
    return out


def main(argv):
    prop = argv[0].upper()
    replay = None
    if "--replay" in argv:
        replay = argv[argv.index("--replay") + 1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"pv_{prop}_")
    try:
        rc = _main(prop, tier, seed, replay, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc


def _main(prop, tier, seed, replay, tmp, t0):
    nshards = int(os.environ.get("PV_SHARDS", str(min(8, os.cpu_count() or 1))))
    cap = float(os.environ.get("PV_CAP", "780" if tier == "quick" else "3000"))
    cache = os.path.join(tmp, "pyc")
    env = worker_env(cache)
    env["TMPDIR"] = os.path.join(tmp, "t")
    os.mkdir(env["TMPDIR"])
    procs = []
    if replay:
        nshards = 1
    for s in range(nshards):
        out = os.path.join(tmp, f"out{s}.jsonl")
        cmd = [PY, "-X", "faulthandler", "-m", "pv.worker", prop, tier, str(seed), str(s), str(nshards), out, tmp]
        if replay:
            cmd.append(os.path.abspath(replay))
        log = open(os.path.join(tmp, f"log{s}.txt"), "wb")
        procs.append(
            (s, out, subprocess.Popen(cmd, cwd=VERIF, env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=log,
                                      start_new_session=True), log)
        )
    problems = []
    deadline = t0 + cap
    for s, out, p, log in procs:
        try:
            rc = p.wait(max(1.0, deadline - time.time()))
            if rc != 0:
                problems.append(f"worker {s} exited {rc}")
        except subprocess.TimeoutExpired:
            problems.append(f"worker {s} exceeded the {cap:.0f}s cap")
        finally:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            log.close()

    counters, sigs, samples, violations, evals = {}, set(), [], [], 0
    errors = []
    meta = {}
    planned = None
    for s, out, p, log in procs:
        if not os.path.exists(out):
            problems.append(f"worker {s} wrote nothing")
            continue
        done = False
        with open(out) as f:
            for line in f:
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if r["t"] == "meta":
                    meta = r
                    planned = r["planned"]
                elif r["t"] == "case":
                    evals += r["evals"]
                    for k, v in r["counters"].items():
                        counters[k] = counters.get(k, 0) + v
                    sigs.update(r["sigs"])
                    if len(samples) < 4 and r["samples"]:
                        samples.extend(r["samples"][: 4 - len(samples)])
                    violations.extend(r["violations"])
                    errors.extend(r["errors"])
                elif r["t"] == "done":
                    done = True
        if not done:
            problems.append(f"worker {s} did not finish")
        if problems and os.path.exists(os.path.join(tmp, f"log{s}.txt")):
            with open(os.path.join(tmp, f"log{s}.txt"), errors="replace") as f:
                tail = f.read()[-1500:]
            if tail.strip():
                errors.append(f"log of worker {s}: {tail}")

    known = known_findings(prop)
    fresh, listed = [], {}
    for v in violations:
        if v["kind"] in known:
            listed.setdefault(v["kind"], []).append(v)
        else:
            fresh.append(v)
    if not replay:
        for name, need in (meta.get("minimum") or {}).items():
            if counters.get(name, 0) < need:
                problems.append(f"monitor starved: {name}={counters.get(name, 0)} < {need}")
        if errors:
            problems.append(f"{len(errors)} harness errors")

    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(sigs),
            "rule": meta.get("rule", ""),
            "samples": samples or ["none"],
            "observed": dict(sorted(counters.items())),
            "cases_planned": planned,
            "known_findings_seen": {k: len(v) for k, v in listed.items()},
            "inconclusive": problems,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if not replay:
        with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
            f.write("\n")

    for k, vs in sorted(listed.items()):
        print(f"KNOWN-FINDING: property={prop} key={k} {known[k]} ({len(vs)} occurrences this run)")
    print(f"{prop} [{tier} seed={seed}] evaluations={evals} distinct={len(sigs)} wall={ev['wall_s']}s")
    print("observed: " + json.dumps(ev["coverage"]["observed"]))
    if fresh:
        rdir = os.path.join(evdir, "replays")
        os.makedirs(rdir, exist_ok=True)
        kinds = {}
        for v in fresh:
            kinds.setdefault(v["kind"], []).append(v)
        first = None
        for k, vs in sorted(kinds.items()):
            v = min(vs, key=lambda x: len(json.dumps(x, default=str)))
            h = hashlib.sha1((prop + k).encode()).hexdigest()[:8]
            path = os.path.join(rdir, f"{prop}_{h}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, **v}, f, indent=1, default=str)
            first = first or path
            print(f"  [{k}] x{len(vs)}: {v['msg'][:1200]}  (replay {path})")
        print(f"VIOLATION property={prop} replay={first}")
        return 1
    if problems:
        print("INCONCLUSIVE: " + "; ".join(problems))
        for e in errors[:5]:
            print("  " + e[-3000:])
        return 2
    print("HELD on everything observed")
    return 0


def load_check(prop):
    return importlib.import_module("checks." + prop.lower())
