"""C36: a failing CLI command raises the error that tells why, and CLIs of unsupported versions are refused."""
import os
import shutil
import tempfile
import threading

from pulumi import automation as auto
from pulumi.automation import errors

from pv import clisim

RULE = ("One case = 8 calls of the Automation API (3 at once) whose CLI commands fail with random output on both streams, exit codes or signals, the output holding at most one of the CLI's messages of known meaning in "
        "the stream it's written to, in the other one, or a similar text; or 8 workspaces created with random CLI versions; the type and text of what is raised are compared with a model; distinct by commands and "
        "messages, non-trivial if the message has a meaning.")
ASSUMPTIONS = ["at most one message of known meaning is output"]
CASE_TIMEOUT = 100
STDERR = {
    "StackNotFoundError": ["error: no stack named 'dev' found", "no stack named 'a/b/ünï' found in x", 'error: getting stack: no stack named "x" found'],
    "StackAlreadyExistsError": ["error: stack 'dev' already exists", "stack 'org/ünï.x' already exists; use select"],
    "ConcurrentUpdateError": ["error: [409] Conflict: Another update is currently in progress.", "x[409] Conflict: Another update is currently in progress.y"],
}
STDOUT = {
    "InlineSourceRuntimeError": ["error: python inline source runtime error: boom", "  python inline source runtime error"],
    "RuntimeError": ["error: Running program '/x' failed with an unhandled exception:", "panic: runtime error: index out of range", "error: an unhandled error occurred: Program exited with non-zero exit code: 1"],
    "CompilationError": ["Build FAILED.", "⨯ Unable to compile TypeScript:", "./main.go:3:1: syntax error: non-declaration", "./main.go:10:2: undefined: foo"],
}
NOTHING = ["", "error: some other thing", "no stack named x", "a stack that exists already", "409 Conflict", "syntax error in yaml", "undefined", "Build succeeded.", "runtime error", "unhandled exception", "nothing found",
           "the stack is locked"]
NOISE = ["", "plain", "Updating (dev):", "ünï 😀 ünï", "   indented", "x" * 3000, "\u2028", "+  pulumi:pulumi:Stack created", "{}"]
TRIPLE = {c: getattr(errors, c) for c in [*STDERR, *STDOUT]}


def plan(tier, seed):
    return [{"i": i, "versions": i % 6 == 5} for i in range(264 if tier == "quick" else 5000)]


def minimum(tier):
    return {"failures": 800, "signals": 60, "wrong_stream": 35, "nothing": 35, "versions": 160, "too_old": 30, "too_new": 15, "unreadable": 10, "opted_out": 30, "accepted": 40, "commands": 22, "create_or_select": 8, **{c: 60 for c in TRIPLE}}


def create_or_select(ws, st):  # pylint: disable=unused-argument
    return auto.Stack.create_or_select("dev", ws)


CALLS = {
    "whoami": [lambda ws, st: ws.who_am_i()], "stack": [],
    "stack ls": [lambda ws, st: ws.list_stacks(), lambda ws, st: ws.stack()],
    "stack rm": [lambda ws, st: ws.remove_stack("dev")],
    "stack init": [lambda ws, st: ws.create_stack("new"), lambda ws, st: auto.Stack.create("new", ws), create_or_select],
    "stack select": [lambda ws, st: ws.select_stack("dev"), lambda ws, st: auto.Stack.select("dev", ws)],
    "config": [lambda ws, st: st.get_all_config(), lambda ws, st: ws.get_all_config("dev")],
    "config get": [lambda ws, st: st.get_config("k"), lambda ws, st: ws.get_config("dev", "k")],
    "config set": [lambda ws, st: st.set_config("k", auto.ConfigValue("v"))],
    "config set-all": [lambda ws, st: st.set_all_config({"k": auto.ConfigValue("v", secret=True)})],
    "config rm": [lambda ws, st: st.remove_config("k")], "config rm-all": [lambda ws, st: st.remove_all_config(["k"])],
    "config refresh": [lambda ws, st: st.refresh_config()],
    "plugin install": [lambda ws, st: ws.install_plugin("aws", "v1.0.0")], "plugin rm": [lambda ws, st: ws.remove_plugin("aws")], "plugin ls": [lambda ws, st: ws.list_plugins()],
    "stack export": [lambda ws, st: st.export_stack()], "stack import": [lambda ws, st: st.import_stack(auto.Deployment(version=3, deployment={}))],
    "stack output": [lambda ws, st: st.outputs(), lambda ws, st: st.up()], "stack history": [lambda ws, st: st.history(), lambda ws, st: st.destroy(), lambda ws, st: st.info()],
    "up": [lambda ws, st: st.up(), lambda ws, st: st.up(on_output=[].append)], "refresh": [lambda ws, st: st.refresh()], "destroy": [lambda ws, st: st.destroy()], "cancel": [lambda ws, st: st.cancel()],
}
COMMANDS = sorted(k for k, v in CALLS.items() if v)


def noisy(r, text):
    lines = [r.choice(NOISE) for _ in range(r.choice([0, 1, 3]))]
    if text:
        lines.insert(r.randrange(len(lines) + 1), text)
    if r.random() < 0.04:
        lines.insert(0, "debug: " + "much " * r.choice([2000, 20000, 60000]))
    return "".join(x + "\n" for x in lines) if r.random() < 0.8 else "\n".join(lines)


def failure(r, ctx, d, ws, stack):
    cmd = r.choice(COMMANDS)
    call = r.choice(CALLS[cmd])
    kind = r.choice([*STDERR, *STDOUT, *STDERR, *STDOUT, "wrong_stream", "nothing"])
    out = err = ""
    if kind in STDERR:
        err = r.choice(STDERR[kind])
    elif kind in STDOUT:
        out = r.choice(STDOUT[kind])
    elif kind == "wrong_stream":
        if r.random() < 0.5:
            out = r.choice(r.choice(list(STDERR.values())))
        else:
            err = r.choice(r.choice(list(STDOUT.values())))
    else:
        out, err = r.choice(NOTHING), r.choice(NOTHING)
    out, err = noisy(r, out), noisy(r, err)
    fault = {"stdout": out, "stderr": err, "code": r.choice([1, 2, 3, 255, 127])}
    if r.random() < 0.12:
        fault["signal"] = r.choice([9, 15])
    code = -fault["signal"] if "signal" in fault else fault["code"]
    clisim.change(d, lambda s: s.update(faults={cmd: fault}))
    error = res = None
    try:
        res = call(ws, stack)
    except Exception as exn:  # pylint: disable=broad-except
        error = exn
    finally:
        clisim.change(d, lambda s: s.update(faults={}))
    want = TRIPLE.get(kind, errors.CommandError)
    what = f"{cmd} failing with {fault}"[:1500]
    ctx.evaluated()
    ctx.count("failures")
    ctx.count(kind)
    ctx.count("signals", "signal" in fault)
    ctx.sig(cmd + kind)
    ctx.seen_commands.add(cmd)
    if call is create_or_select:
        ctx.count("create_or_select")
        if kind == "StackAlreadyExistsError":
            ctx.check(error is None and res.name == "dev", "existing", lambda: f"{what}: {error!r} {res!r}"[:2500])
            return
    if not ctx.check(type(error) is want, "type", lambda: f"{what}: {type(error)} {error!r} {res!r}"[:2500]):  # pylint: disable=unidiomatic-typecheck
        return
    text = str(error)
    ctx.check(f"code: {code}\n" in text, "code", lambda: f"{what}: {text}"[:2500])
    ctx.check("\n".join(x.rstrip() for x in out.split("\n")).rstrip("\n") in text and err in text, "text", lambda: f"{what}: {text}"[:2500])
    ctx.check(isinstance(error, auto.CommandError), "base", lambda: f"{what}: {type(error).__mro__}")
    rest = [x for x in os.listdir(tempfile.gettempdir()) if x.startswith("tmp") or "automation" in x]
    if ctx.alone:
        ctx.check(not rest, "left", lambda: f"{what}: left {rest}")


def version_case(r, ctx, d, work):
    """A workspace is created with a CLI of some version."""
    num = lambda: r.choice([0, 1, 2, 9, 10, 39, 1234])  # noqa: E731
    major = r.choice([0, 2, 3, 3, 3, 3, 3, 3, 4, 10, 30])
    minor, patch = (r.choice([0, 0, 1, 1, 2, 10, 39]) if major == 3 else num()), num()
    pre = r.choice(["", "", "", "-alpha", "-alpha.1663", "-dev.0", "-rc.1"])
    build = r.choice(["", "", "+abc.5", "+dirty"])
    good = True
    text = f"{major}.{minor}.{patch}{pre}{build}"
    if r.random() < 0.2:
        good, text = False, r.choice(["invalid", "3.1", "3", "v", "vv3.10.0", "3.10.0.1", "03.10.0", "3.10.x", "unknown version", "", "-", "3,10,0", "latest"])
    old = major < 3 or (major == 3 and (minor < 1 or (minor == 1 and patch == 0 and bool(pre))))
    new = major > 3
    out = r.choice(["", "v"]) + text if good else text
    out = r.choice(["", "", " "]) + out + r.choice(["\n", "\n", "", " \n\n"])
    skip = r.choice([None, None, None, "env", "var"])
    value = r.choice(["1", "true", "x"])
    clisim.change(d, lambda s: s.update(version=out.rstrip("\n") if out.endswith("\n") else out))
    kw = {}
    if skip == "var":
        kw["env_vars"] = {"PULUMI_AUTOMATION_API_SKIP_VERSION_CHECK": value}
    elif r.random() < 0.3:
        kw["env_vars"] = {"OTHER": "1"}
    if skip == "env":
        os.environ["PULUMI_AUTOMATION_API_SKIP_VERSION_CHECK"] = value
    error = ws = None
    try:
        ws = auto.LocalWorkspace(work_dir=work, **kw)
    except Exception as exn:  # pylint: disable=broad-except
        error = exn
    finally:
        os.environ.pop("PULUMI_AUTOMATION_API_SKIP_VERSION_CHECK", None)
    what = f"CLI version {out!r}, opted out: {skip}"
    ctx.evaluated()
    ctx.count("versions")
    ctx.count("too_old", good and old)
    ctx.count("too_new", good and new)
    ctx.count("unreadable", not good)
    ctx.count("opted_out", bool(skip))
    ctx.sig(f"version {major if good else text} {minor} {pre} {skip}")
    if skip or (good and not old and not new):
        ctx.count("accepted")
        if not ctx.check(error is None, "refused", lambda: f"{what}: {error!r}"):
            return
        got = exc = None
        try:
            got = ws.pulumi_version
        except Exception as exn:  # pylint: disable=broad-except
            exc = exn
        if good:
            ctx.check(got == text and exc is None, "version", lambda: f"{what}: {got!r} {exc!r} instead of {text!r}")
        else:
            ctx.check(isinstance(exc, auto.InvalidVersionError), "version", lambda: f"{what}: {got!r} {exc!r}")
    else:
        ctx.check(isinstance(error, auto.InvalidVersionError), "accepted", lambda: f"{what}: {error!r}")


def run(case, ctx):
    r = ctx.rng()
    base = os.path.join(ctx.tmp, "c36")
    shutil.rmtree(base, ignore_errors=True)
    work = os.path.join(base, "work")
    os.makedirs(work)
    os.makedirs(os.path.join(base, "tmp"))
    with open(os.path.join(work, "Pulumi.yaml"), "w", encoding="utf-8") as f:
        f.write("name: proj\nruntime: python\n")
    clisim.install(os.path.join(ctx.tmp, "bin"))
    saved, tempfile.tempdir = tempfile.tempdir, os.path.join(base, "tmp")
    ctx.seen_commands = set()
    try:
        if case["versions"]:
            d = os.path.join(base, "cli")
            clisim.write(d, clisim.initial())
            os.environ["PV_CLI"] = d
            for _ in range(8):
                version_case(r, ctx, d, work)
            return
        sides = []
        for k in range(3):
            d = os.path.join(base, f"cli{k}")
            clisim.write(d, clisim.initial())
            os.environ["PV_CLI"] = d
            ws = auto.LocalWorkspace(work_dir=work, env_vars={"PV_CLI": d})
            st = auto.Stack.create("dev", ws)
            clisim.change(d, lambda s: s["stacks"]["dev"].update(config={"proj:k": {"value": "v", "secret": False}}, history=[
                {"kind": "update", "startTime": "2022-01-01T00:00:00.000Z", "message": "", "environment": {}, "config": {}, "result": "succeeded"}]))
            sides.append((d, ws, st))
        ctx.alone = True
        for _ in range(5):
            failure(r, ctx, *sides[0])
        ctx.alone = False
        import random  # pylint: disable=import-outside-toplevel

        ths = [threading.Thread(target=failure, args=(random.Random(r.random()), ctx, *s), daemon=True) for s in sides]
        for t in ths:
            t.start()
        for t in ths:
            t.join(30)
            ctx.check(not t.is_alive(), "hang", "a call doesn't return")
        ctx.count("commands", len(ctx.seen_commands))
    finally:
        tempfile.tempdir = saved
        os.environ.pop("PV_CLI", None)
