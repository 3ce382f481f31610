"""C27: the language host runs the program as asked, and its exit code and logs tell how it went."""
import json
import os
import shutil
import subprocess
import sys

from pv import grpcsrv
from pv.engine import Engine, RpcFault

RULE = ("One case = a generated program (file or directory, with a helper module) run by the language host's script in its own process with random arguments, settings and configuration against a fake engine; "
        "what the program saw, exit code, logs, output and registrations are compared with a model; distinct by the way it fails and where, non-trivial if it fails or resources are registered.")
ASSUMPTIONS = ["SystemExit raised by the program ends the process as in any Python program", "what's logged in addition to the failure isn't specified"]
CASE_TIMEOUT = 120
REPO = os.environ.get("PV_REPO", "/repo")
EXEC = os.path.join(REPO, "sdk/python/cmd/pulumi-language-python-exec")
WORDS = ["plain", "two words", "ü☃", "--flag", "-x", "a=b", "$HOME", "'q' \"d\""]


def plan(tier, seed):
    return [{"i": i, "how": HOWS[i % len(HOWS)]} for i in range(24 * len(HOWS) if tier == "quick" else 120 * len(HOWS))]


HOWS = ["ok", "ok", "ok", "top", "module", "callback", "coroutine", "component", "input", "runerror", "runerror_callback", "syntax", "import", "exit", "rejected", "failing_function", "deep", "transformation",
        "late_ok", "chained"]


def minimum(tier):
    return {"processes": 140, "ok": 12, "failed": 80, "directory": 30, "pwd": 40, "secret_keys": 20, "registered": 250, "dry_runs": 15, "user_traces": 15, "outputs": 10, "args": 60, "big": 8, **{"how_" + h: 6 for h in HOWS}}


HEAD = '''
import asyncio, json, os, sys
import pulumi
seen = {"argv": sys.argv, "cwd": os.getcwd(), "name": __name__, "project": pulumi.get_project(), "stack": pulumi.get_stack(), "dry": pulumi.runtime.is_dry_run(),
        "org": pulumi.get_organization() if %(org)r else None,
        "config": {k: pulumi.runtime.get_config(k) for k in %(keys)r}, "secret": {k: pulumi.runtime.is_config_secret(k) for k in %(keys)r}}
with open(%(out)r, "a") as f:
    f.write(json.dumps(seen) + "\\n")
print(%(text)r)
print(%(text)r, file=sys.stderr)
import helper

class Comp(pulumi.ComponentResource):
    def __init__(self, name, fail):
        super().__init__("my:c:Comp", name)
        pulumi.CustomResource("t:m:R", name + "-child", {"x": 1}, pulumi.ResourceOptions(parent=self))
        if fail:
            raise ValueError(fail)
        self.register_outputs({})

def boom(reason):
    raise ValueError(reason)

async def later(reason):
    await asyncio.sleep(0.01)
    raise ValueError(reason)

class Special(ValueError):
    pass

res = [pulumi.CustomResource("t:m:R", f"r{i}", {"n": i}) for i in range(%(count)d)]
if %(big)d:
    answer = pulumi.runtime.invoke("t:m:big", {"x": "x" * %(big)d}).value
    with open(%(out)r + ".big", "w") as f:
        f.write(answer["y"])
'''
BODY = {
    "ok": "",
    "late_ok": "async def co():\n    await asyncio.sleep(0.05)\n    pulumi.CustomResource('t:m:R', 'late', {})\n    return 1\npulumi.export('late', pulumi.Output.from_input(co()))\n",
    "top": "\n\ndef inner():\n    raise Special(%(reason)r)\n\ninner()\n",
    "module": "helper.fail(%(reason)r)\n",
    "callback": "res[0].urn.apply(lambda _: boom(%(reason)r))\n",
    "coroutine": "pulumi.Output.from_input(later(%(reason)r))\n",
    "component": "Comp('c', %(reason)r)\n",
    "input": "pulumi.CustomResource('t:m:R', 'bad', {'a': later(%(reason)r)})\n",
    "runerror": "raise pulumi.RunError(%(reason)r)\n",
    "runerror_callback": "def cb(_):\n    raise pulumi.RunError(%(reason)r)\nres[0].urn.apply(cb)\n",
    "syntax": "x = = 1\n",
    "import": "import no_such_module_%(n)d\n",
    "exit": "sys.exit(%(code)d)\n",
    "rejected": "pulumi.CustomResource('t:m:R', 'rejected', {})\n",
    "failing_function": "pulumi.runtime.invoke('t:m:failing', {})\n",
    "deep": "def rec(n):\n    return rec(n - 1) if n else boom(%(reason)r)\nrec(30)\n",
    "transformation": "pulumi.runtime.register_stack_transformation(lambda a: boom(%(reason)r))\npulumi.CustomResource('t:m:R', 'x', {})\n",
    "chained": "try:\n    boom('first-cause')\nexcept ValueError as e:\n    raise Special(%(reason)r) from e\n",
}


def run(case, ctx):  # pylint: disable=too-many-locals
    r = ctx.rng()
    how = case["how"]
    base = os.path.join(ctx.tmp, "c27")
    shutil.rmtree(base, ignore_errors=True)
    pdir = os.path.join(base, r.choice(["prog", "prög dir"]))
    work = os.path.join(base, "wörk")
    os.makedirs(pdir)
    os.makedirs(work)
    reason = "why-" + r.choice(WORDS) + "\n" + r.choice(["", "second line"])
    conf = {k: r.choice(WORDS + ["", "1", "{\"a\": 1}"]) for k in r.sample(["proj:a", "proj:b", "aws:region", "p:é"], r.choice([0, 1, 3]))}
    secret_keys = r.sample(sorted(conf), r.randrange(len(conf) + 1)) if conf and r.random() < 0.7 else None
    out = os.path.join(base, "out")
    directory = r.random() < 0.35
    args = r.sample([w for w in WORDS if not w.startswith("-")], r.choice([0, 1, 2]))
    project, stack = r.choice(["proj", "prüj 1"]), r.choice(["stk", "s.t-k"])
    org = r.choice([None, "org", "ö", "My-Org Ü"])
    dry = r.choice(["false", "false", "true", None])
    parallel = r.choice(["0", "1", "4", "16"])
    pwd = r.choice([None, work, work])
    text = "printed " + r.choice(WORDS) + "é" * r.choice([0, 10, 5000])
    code = r.choice([0, 3, 77])
    count = r.choice([1, 2, 4])
    big = r.choice([0] * 5 + [1000, 6_000_000])  # the length of a text that a function of the program takes and returns
    asked = []
    vals = dict(org=org, keys=sorted(conf) + ["x:missing"], out=out, text=text, count=count, reason=reason, n=case["i"], code=code, big=big)
    src = HEAD % vals
    outputs = {f"o{i}": r.choice(["x", 1.5, True]) for i in range(r.choice([0, 1, 2]))}
    export = "".join(f"pulumi.export({k!r}, {v!r})\n" for k, v in outputs.items())
    src += export + "\n" * r.choice([0, 3, 20]) + BODY[how] % vals
    main = os.path.join(pdir, "__main__.py" if directory else r.choice(["main.py", "prög.py"]))
    with open(main, "w", encoding="utf-8") as f:
        f.write(src)
    with open(os.path.join(pdir, "helper.py"), "w", encoding="utf-8") as f:
        f.write("\n\ndef fail(reason):\n    raise KeyError(reason)\n")
    program = pdir if directory else main

    def on_register(q):
        if q.name == "rejected":
            raise RpcFault(3, "why-rejected é")

    def answer(q, urn):
        on_register(q)

    def invoked(q):
        if q.tok == "t:m:big":
            asked.append(len(q.args["x"]))
            return "return", {"y": "y" * big}
        return "failures", [("p", "why-function")]

    eng = Engine(project=project, stack=stack, preview=dry == "true", schedule=r.choice([None, "sleep"]), seed=case["i"], on_register=answer,
                 on_invoke=invoked)
    server, addr = grpcsrv.serve(eng, 8)
    env = {k: v for k, v in os.environ.items() if not k.startswith("PULUMI")}
    # (The directory of a program that's a file isn't searched for its modules.)
    env.update(PYTHONPATH=os.path.join(REPO, "sdk/python/lib") + ("" if directory else ":" + pdir), PYTHONIOENCODING="utf-8", PYTHONDONTWRITEBYTECODE="1")
    if conf or r.random() < 0.5:
        env["PULUMI_CONFIG"] = json.dumps(conf)
    if secret_keys is not None:
        env["PULUMI_CONFIG_SECRET_KEYS"] = json.dumps(secret_keys)
    cmd = [sys.executable, "-u", EXEC, "--monitor", addr, "--engine", addr, "--project", project, "--stack", stack, "--parallel", parallel]
    cmd += ["--dry_run", dry] if dry else []
    cmd += ["--pwd", pwd] if pwd else []
    cmd += ["--organization", org] if org else []
    cmd += [program, *args]
    what = f"{how} {'directory' if directory else 'file'} args={args} conf={conf}"
    try:
        p = subprocess.run(cmd, env=env, cwd=base, capture_output=True, timeout=60, check=False)
    except subprocess.TimeoutExpired as exn:
        ctx.violation("hang", f"{what}: {str(exn.stderr)[-500:]}")
        return
    finally:
        server.stop(0)
        eng.close()
    ctx.evaluated()
    ctx.sig(f"{how} {directory} {bool(args)} {sorted(conf)} {dry}")
    for k, v in (("processes", True), ("directory", directory), ("pwd", bool(pwd)), ("secret_keys", bool(secret_keys)), ("dry_runs", dry == "true"), ("args", len(args)), ("how_" + how, True)):
        ctx.count(k, v)
    errors = [m.message for _, m in eng.logs if m.severity == 3]
    show = lambda: f"{what}: exit code {p.returncode}, errors {[e[-700:] for e in errors]}, stderr {p.stderr.decode('utf-8', 'replace')[-500:]}"  # noqa: E731
    # What the program saw.
    if how == "syntax":
        ctx.check(not os.path.exists(out), "ran", show)
    else:
        with open(out, encoding="utf-8") as f:
            runs = [json.loads(x) for x in f]
        ctx.check(len(runs) == 1, "runs", lambda: f"the program ran {len(runs)} times; {show()}")
        got = dict(runs[0])
        want = {"argv": [program, *args], "cwd": os.path.realpath(pwd or base), "name": "__main__", "project": project, "stack": stack, "dry": dry == "true", "org": org,
                "config": {**conf, "x:missing": None}, "secret": {**{k: k in (secret_keys or []) for k in conf}, "x:missing": False}}
        got["cwd"] = os.path.realpath(got["cwd"])
        # Python itself replaces the first argument by the path of what it runs.
        ok = got["argv"][1:] == want["argv"][1:] and os.path.basename(got["argv"][0]) in (os.path.basename(program), os.path.basename(main))
        got.pop("argv"), want.pop("argv")
        ctx.check(ok and got == want, "seen", lambda: f"the program saw {runs[0]} instead of {want} and {[program, *args]}; {show()}"[:2500])
        for s, name in ((p.stdout, "stdout"), (p.stderr, "stderr")):
            ctx.check(s.decode("utf-8", "replace").count(text) == 1, "printed", lambda: f"{name}: {s[-300:]}; {show()}"[:2500])
    if big and how != "syntax":
        ctx.count("big", big > 4 << 20)
        length = os.path.getsize(out + ".big") if os.path.exists(out + ".big") else None
        ctx.check(asked == [big] and length == big, "big", lambda: f"a function took {asked} and returned {length} characters instead of {big}; {show()}")
    # How it went.
    good = how in ("ok", "late_ok") or (how == "exit" and code == 0)
    want_code = 0 if good else code if how == "exit" else 1 if how.startswith("runerror") else 32
    ctx.count("ok" if good else "failed")
    ctx.check(p.returncode == want_code, "exit-code", lambda: f"{want_code} expected: {show()}")
    names = [e.req.name for e in eng.registers()]
    ctx.check(len(names) == len(set(names)), "repeated", lambda: f"{names}; {show()}")
    ctx.count("registered", len(names))
    if how in ("ok", "late_ok"):
        ctx.check(not errors, "errors", show)
        ctx.check(set(names) == {f"r{i}" for i in range(count)} | ({"late"} if how == "late_ok" else set()), "registered", lambda: f"{names}; {show()}")
        outs = [e.req for e in eng.by("RegisterResourceOutputs") if "pulumi:pulumi:Stack" in e.req.urn]
        ctx.count("outputs", len(outs))
        from pv import wire  # pylint: disable=import-outside-toplevel

        want = {**outputs, **({"late": 1} if how == "late_ok" else {})}
        ctx.check(len(outs) == 1 and wire.eq(wire.dec(outs[0].outputs), want), "outputs", lambda: f"{[str(o)[:300] for o in outs]} instead of {want}; {show()}")
        return
    if how == "exit":
        return
    expect = {"rejected": "why-rejected é", "failing_function": "why-function", "syntax": "SyntaxError", "import": f"no_such_module_{case['i']}"}.get(how)
    if expect is None:
        expect = repr(reason)[1:-1] if how == "module" else reason.strip()
        if how == "module":
            ctx.check(any("KeyError" in e for e in errors), "reason", show)
    ctx.check(sum(expect in e for e in errors) >= 1, "reason", lambda: f"{expect!r} isn't among the errors; {show()}")
    if how.startswith("runerror"):
        ctx.check(reason in errors, "run-error", show)
    else:
        ctx.check(sum(e.startswith("Program failed with an unhandled exception:") for e in errors) == 1, "message", show)
    if how in ("top", "module", "component", "deep", "chained"):
        # The traceback consists of the user's frames.
        msg = next((e for e in errors if "unhandled exception" in e), "")
        ctx.count("user_traces")
        ctx.check("Traceback" in msg and os.path.basename(main) in msg, "trace", show)
        ctx.check("runpy" not in msg and "run_in_stack" not in msg and "pulumi/runtime/stack.py" not in msg, "trace-noise", show)
        if how == "module":
            ctx.check("helper.py" in msg, "trace", show)
        if how in ("top", "chained"):
            ctx.check("Special" in msg, "trace", show)
        if how == "deep":
            ctx.check("boom" in msg and "rec" in msg, "trace", show)
