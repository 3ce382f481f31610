"""C37: policy packs and plugins are started with the right interpreter, and policy packs see the stack's settings and configuration."""
import json
import os
import shutil
import signal
import subprocess
import sys

import grpc
from google.protobuf import empty_pb2
from pulumi.runtime.proto import provider_pb2_grpc

from pv.core import PY

RULE = ("One case = 4 policy packs (a file or directory with a helper module) run by pulumi.policy, directly or by the plugin's launcher with random virtual environments, interpreters, settings and configuration, which "
        "end in random ways, and one dynamic provider plugin started by its launcher; what the pack saw, its exit code, output and errors and the interpreter used are compared with a model; distinct by way of "
        "launching, settings and end; non-trivial if the pack reads settings.")
ASSUMPTIONS = ["the engine gives the project, stack and kind of run all or not at all", "SystemExit ends the process as in any Python program"]
CASE_TIMEOUT = 120
REPO = os.environ.get("PV_REPO", "/repo")
DIST = os.path.join(REPO, "sdk/python/dist")
VALUES = ["", "plain", "ü☃", "true", "12", '{"a": [1]}', "two words", "x" * 2000]
KEYS = ["proj:a", "aws:region", "proj:fooBar", "ü:k", "proj:a.b", "x:nested:key"]
HOWS = ["ok", "ok", "ok", "raise", "syntax", "import", "exit", "exit0", "helper", "deep", "baseexception"]


def plan(tier, seed):
    return [{"i": i} for i in range(120 if tier == "quick" else 900)]


def minimum(tier):
    return {"packs": 120, "settings": 60, "no_settings": 20, "configured": 60, "failed": 50, "virtualenv": 40, "bad_virtualenv": 10, "default_python": 10, "directory": 50, "usage": 1, "plugins": 20, "organizations": 25}


PACK = '''
import json, os, sys
seen = {"argv": sys.argv, "cwd": os.getcwd(), "name": __name__, "by": os.environ.get("PV_BY"), "path": os.environ["PATH"], "home": os.environ.get("PYTHONHOME")}
import pulumi
def get(f):
    try:
        return f()
    except Exception as e:
        return ["failed", str(e)]
seen.update(project=get(pulumi.get_project), stack=get(pulumi.get_stack), org=get(pulumi.get_organization), dry=get(pulumi.runtime.is_dry_run))
seen["config"] = {k: pulumi.Config(k.split(":", 1)[0]).get(k.split(":", 1)[1]) for k in %(keys)r}
with open(%(out)r, "w") as f:
    json.dump(seen, f)
print(%(text)r)
print(%(text)r, file=sys.stderr)
import helper
%(end)s
'''
ENDS = {"ok": "", "raise": "raise ValueError(%r)", "syntax": "def (:  # %r", "import": "import no_such_module  # %r", "exit": "sys.exit(7)  # %r", "exit0": "sys.exit(0)  # %r", "helper": "helper.boom(%r)",
        "deep": "def f(n):\n    return f(n - 1) if n else 1 / 0  # %r\nf(50)", "baseexception": "raise KeyboardInterrupt(%r)"}


def interpreter(path, mark):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        # Without the variable that the launcher has to unset, nothing would start here.
        f.write(f'#!/bin/sh\nif [ -z "$PV_BY" ]; then PV_BY={mark}; export PV_BY; fi\nif [ -n "$PYTHONHOME" ]; then echo "PYTHONHOME is set" >&2; exit 99; fi\nexec {PY} "$@"\n')
    os.chmod(path, 0o755)


def launch(r, base, shim, env):
    """(command, extra arguments, expected interpreter or None if it can't start, what it prints then)"""
    how = r.choice(["direct", "venv", "venv", "default", "cmd", "bad"] if shim == "policy" else ["venv", "default", "cmd", "bad"])
    script = os.path.join(DIST, "pulumi-analyzer-policy-python" if shim == "policy" else "pulumi-resource-pulumi-python")
    extra = []
    if how == "direct":
        return how, [PY, "-u", "-m", "pulumi.policy"], extra, "", None
    if how in ("venv", "bad"):
        name = r.choice(["venv", "my-venv", ".v"] + (["a b"] if shim == "policy" else []))
        name += f"{len(os.listdir(base))}"  # one of its own
        given = os.path.join(base, name) if r.random() < 0.4 else name
        given += r.choice(["", "", "/"])
        if shim == "policy":
            extra = ["-virtualenv=" + given]
        else:
            env["PULUMI_RUNTIME_VIRTUALENV"] = given
        if r.random() < 0.4:
            env["PYTHONHOME"] = "/nonexistent"
        if how == "venv":
            interpreter(os.path.join(base, name, "bin", "python"), "venv")
            return how, ["sh", script], extra, "venv", os.path.join(base, name)
        exists = r.random() < 0.5
        if exists:
            os.makedirs(os.path.join(base, name), exist_ok=True)
        return how, ["sh", script], extra, None, ("appear to be a virtual environment" if exists else "doesn't exist")
    if how == "cmd":
        interpreter(os.path.join(base, "tools", "mypython"), "cmd")
        env["PULUMI_PYTHON_CMD"] = r.choice([os.path.join(base, "tools", "mypython"), os.path.join(base, "tools", "mypython"), "mypython"])
        env["PATH"] = os.path.join(base, "tools") + ":" + env["PATH"]
        return how, ["sh", script], extra, "cmd", None
    interpreter(os.path.join(base, "tools", "python3"), "default")
    env["PATH"] = os.path.join(base, "tools") + ":" + env["PATH"]
    return how, ["sh", script], extra, "default", None


def pack(r, ctx, base, n):  # pylint: disable=too-many-locals,too-many-statements
    d = os.path.join(base, f"pack{n}")
    os.makedirs(d)
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONHOME", "PULUMI_PYTHON_CMD", "PULUMI_RUNTIME_VIRTUALENV")}
    env["PYTHONIOENCODING"] = "utf-8"
    env["PYTHONDONTWRITEBYTECODE"] = "1"  # packs of other cases have the same paths
    conf = {k: r.choice(VALUES) for k in KEYS if r.random() < 0.5}
    has_conf = r.random() < 0.85
    if has_conf:
        env["PULUMI_CONFIG"] = json.dumps(conf, ensure_ascii=r.random() < 0.5)
    settings = r.random() < 0.75
    project, stack, dry, org = r.choice(["proj", "ü-1", "my.proj"]), r.choice(["stk", "dev-ü"]), r.random() < 0.5, r.choice([None, "org", "Örg"])
    if settings:
        env.update(PULUMI_PROJECT=project, PULUMI_STACK=stack, PULUMI_DRY_RUN="true" if dry else "false")
        if org:
            env["PULUMI_ORGANIZATION"] = org
    how = r.choice(HOWS)
    why, text = f"why-ü-{n}", f"printed ü {n} " + "x" * r.choice([0, 0, 100000])
    is_dir = r.random() < 0.7
    prog = os.path.join(d, "__main__.py" if is_dir else "pack.py")
    out = os.path.join(d, "out.json")
    end = ENDS[how] % (why,) if "%" in ENDS[how] else ENDS[how]
    with open(prog, "w", encoding="utf-8") as f:
        f.write(PACK % {"keys": KEYS, "out": out, "text": text, "end": end})
    with open(os.path.join(d, "helper.py"), "w", encoding="utf-8") as f:
        f.write("def boom(why):\n    raise RuntimeError(why)\n")
    target = d if is_dir else prog
    cwd = base
    if is_dir and r.random() < 0.5:
        cwd, target = d, "."
    if not is_dir:
        env["PYTHONPATH"] = d + os.pathsep + env["PYTHONPATH"]
    way, cmd, extra, by, more = launch(r, cwd, "policy", env)
    args = ["127.0.0.1:1", target]
    if way == "direct" and r.random() < 0.3:
        args += ["more", "arguments"]
    few = way == "direct" and r.random() < 0.2
    if few:
        args = args[:r.choice([0, 1])]
    what = f"{way} {how} cwd={cwd} {args + extra} settings={(project, stack, dry, org) if settings else None} config={str(conf)[:300] if has_conf else None}"
    p = subprocess.run(cmd + args + extra, cwd=cwd, env=env, capture_output=True, timeout=90, check=False)
    so, se = p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    show = lambda: f"{what}: exit code {p.returncode}, {so[-300:]!r}, {se[-900:]!r}"  # noqa: E731
    ctx.evaluated()
    ctx.count("packs")
    if few:
        ctx.count("usage")
        ctx.check(p.returncode == 1 and "usage" in se and not os.path.exists(out), "usage", show)
        return
    if by is None:
        ctx.count("bad_virtualenv")
        ctx.check(p.returncode == 1 and more in se and not os.path.exists(out), "virtualenv", show)
        return
    ctx.count("virtualenv", way == "venv")
    ctx.count("default_python", way == "default")
    ctx.count("directory", is_dir)
    ctx.sig(f"{way} {how} {settings} {org} {is_dir} {has_conf}")
    ok = how in ("ok", "exit0")
    ctx.count("failed", not ok)
    ctx.check((p.returncode == 0) == ok and (how != "exit" or p.returncode == 7) and (how not in ("raise", "syntax", "import", "helper", "deep") or p.returncode == 1), "exit-code", show)
    if how == "syntax":
        ctx.check("SyntaxError" in se, "reason", show)
        return
    if not ctx.check(os.path.exists(out), "not-run", show):
        return
    with open(out, encoding="utf-8") as f:
        seen = json.load(f)
    ctx.check(text in so and text in se, "printed", show)
    if how in ("raise", "helper", "import", "deep", "baseexception"):
        reason = {"import": "no_such_module", "deep": "ZeroDivisionError"}.get(how, why)
        ctx.check(reason in se and (how == "baseexception" or "Program failed with an unhandled exception" in se), "reason", show)
    ctx.check(seen["name"] == "__main__" and os.path.realpath(seen["cwd"]) == os.path.realpath(cwd), "run", lambda: f"{seen} {show()}")
    ctx.check((seen["by"] or "") == by, "interpreter", lambda: f"{seen['by']} instead of {by}: {show()}")
    if way == "venv":
        ctx.check(seen["home"] is None and seen["path"].split(":")[0] == os.path.join(more, "bin"), "environment", lambda: f"{seen['path']} {seen['home']} {show()}")
    want = {k: conf.get(k) if has_conf else None for k in KEYS}
    ctx.count("configured", has_conf and bool(conf))
    ctx.check(seen["config"] == want, "config", lambda: f"{seen['config']} instead of {want}: {show()}"[:2500])
    if settings:
        ctx.count("settings")
        ctx.count("organizations", bool(org))
        got = (seen["project"], seen["stack"], seen["dry"])
        ctx.check(got == (project, stack, dry), "settings", lambda: f"{got}: {show()}")
        ctx.check(seen["org"] == org if org else isinstance(seen["org"], list), "organization", lambda: f"{seen['org']}: {show()}")
    else:
        ctx.count("no_settings")


def plugin(r, ctx, base):
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONHOME", "PULUMI_PYTHON_CMD", "PULUMI_RUNTIME_VIRTUALENV")}
    cwd = os.path.join(base, "plugin")
    os.makedirs(cwd)
    way, cmd, _, by, more = launch(r, cwd, "dynamic", env)
    what = f"dynamic provider plugin by {way} {env.get('PULUMI_RUNTIME_VIRTUALENV')} {env.get('PULUMI_PYTHON_CMD')}"
    p = subprocess.Popen(cmd + ["127.0.0.1:1"], cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)  # pylint: disable=consider-using-with
    ctx.count("plugins")
    ctx.evaluated()
    try:
        if by is None:
            so, se = p.communicate(timeout=60)
            ctx.check(p.returncode == 1 and more in se.decode() and not so, "virtualenv", lambda: f"{what}: {p.returncode} {so} {se}"[:1500])
            return
        port = p.stdout.readline().decode().strip()
        if not ctx.check(port.isdigit(), "plugin", lambda: f"{what} printed {port!r} {p.stderr.read()[-800:] if not port else ''}"):
            return
        with grpc.insecure_channel(f"127.0.0.1:{port}") as ch:
            info = provider_pb2_grpc.ResourceProviderStub(ch).GetPluginInfo(empty_pb2.Empty(), timeout=30, wait_for_ready=True)
            ctx.check(info.version != "", "plugin", lambda: f"{what}: {info}")
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()


def run(case, ctx):
    r = ctx.rng()
    base = os.path.join(os.path.realpath(ctx.tmp), "c37")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    assert sys.executable
    for n in range(4):
        pack(r, ctx, base, n)
    plugin(r, ctx, base)
    shutil.rmtree(base, ignore_errors=True)
