"""C40: programs that use generated packages say and see what the packages' schemas say."""
import json
import os
import subprocess

from pv.core import PY

RULE = ("One case = one process with one of the packages that the code generator made (of the repository's test data) and 20 random programs using it: resources of all kinds with random inputs (plain, Outputs, secret, "
        "unknown, of input types or made otherwise), reads, functions and their _output variants, methods of components, providers with JSON inputs. The package's schema tells what the engine should get and what the program "
        "should see; distinct by resource, function or method and what's passed; non-trivial if a property is compared.")
ASSUMPTIONS = ["packages whose generated code is broken by itself (external-enum: a missing import; replace-on-change: an import cycle), or has nothing to use without other packages (hyphen-url, cyclic-types), are left out",
               "references to resources whose type has no module (a::B) only go where they can't come back: their URNs can't be read",
               "whether defaults of inputs that aren't given are filled in is up to the generator", "what stands for other packages (random, aws …) has plain resources",
               "generated code is Python that's read by its syntax tree for names, not for what it does"]
CASE_TIMEOUT = 150
REPO = os.environ.get("PV_REPO", "/repo")
TESTDATA = os.path.join(REPO, "pkg/codegen/testing/test/testdata")
BROKEN = ("external-enum", "replace-on-change", "hyphen-url", "cyclic-types")


def packages():
    return [x for x in sorted(os.listdir(TESTDATA)) if x not in BROKEN and os.path.isdir(os.path.join(TESTDATA, x, "python"))
            and any(os.path.exists(os.path.join(TESTDATA, x, f)) for f in ("schema.json", "schema.yaml"))]


def plan(tier, seed):
    return [{"name": x, "i": i} for i in range(8 if tier == "quick" else 60) for x in packages()]


def minimum(tier):
    return {"programs": 2000, "compared": 20000, "inputs": 7000, "attributes": 5000, "output_objects": 4000, "arguments": 1500, "providers": 300, "remote": 1000, "methods": 100, "lifted": 200, "jsons": 200, "references": 200, "secret_inputs": 200, "unknown": 100, "gets": 1000, "echoed": 80, "dictionaries": 300, "answered_references": 400, "referenced_attributes": 1000}


def run(case, ctx):
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([os.path.join(REPO, "sdk/python/lib"), os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]), PYTHONDONTWRITEBYTECODE="1")
    child = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pv", "sdkrun.py")
    p = subprocess.run([PY, child, TESTDATA, case["name"], ctx.rng().random().hex(), "20"], capture_output=True, text=True, env=env, timeout=CASE_TIMEOUT - 20, cwd=ctx.tmp, check=False)
    if p.returncode != 0:
        ctx.evaluated()
        ctx.violation("process", f"{case['name']}: the process ended with {p.returncode}: {p.stderr[-1500:]}")
        return
    x = json.loads(p.stdout.splitlines()[-1])
    for k, n in x["counts"].items():
        ctx.count(k, n)
    ctx.count("programs", x["evals"])
    ctx.count("package_" + case["name"].replace("-", "_"))
    ctx.sample(f"{case['name']}: {x['sigs'][:3]}")
    for s in x["sigs"]:
        ctx.sig(f"{case['name']} {s}")
    ctx.evaluated(x["counts"].get("oracle_evaluations", 1))
    for kind, msg in x["violations"]:
        ctx.violation(kind, f"{case['name']}: {msg}")
