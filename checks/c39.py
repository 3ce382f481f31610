"""C39: stacks are created and selected as asked for, whatever the program, directory and options."""
import os
import shutil
import tempfile
import threading

import yaml

from pulumi import automation as auto
from pulumi.automation import errors

from pv import clisim

RULE = ("One case = 3-8 calls of create_stack, select_stack and create_or_select_stack (of the module, of Stack and of workspaces) with random names, inline programs, project names, directories and options, existing stacks, files, "
        "failing commands and old CLIs, or 3-5 threads making the same stack at once; the commands that ran, the files there were when they did, the workspace and stack returned and the exceptions are compared with a model; "
        "distinct by the calls, non-trivial if the arguments are incomplete or both kinds are given, or the stack exists.")
ASSUMPTIONS = ["the CLI's messages about missing and existing stacks are those of the real one", "read-only commands may be run at will"]
CASE_TIMEOUT = 120


def plan(tier, seed):
    return [{"i": i, "threads": i % 6 == 5} for i in range(300 if tier == "quick" else 4000)]


def minimum(tier):
    return {"calls": 400, "inline": 110, "local": 60, "refused": 60, "created": 130, "selected": 20, "exists": 12, "missing": 40, "faults": 12, "default_settings": 60, "kept_settings": 35, "given_settings": 60, "stack_settings": 80,
            "temporary": 90, "raced": 60, "removed": 20, "old": 5}


NAMES = ["dev", "prod", "org/dev", "org/proj/dev", "x_y.z-1"]
FUNCTIONS = {"create": auto.create_stack, "select": auto.select_stack, "create_or_select": auto.create_or_select_stack}
METHODS = {"create": auto.Stack.create, "select": auto.Stack.select, "create_or_select": auto.Stack.create_or_select}
FILES = {"Pulumi.yaml": "name: kept\nruntime: go\n", "Pulumi.yml": "name: kept\nruntime: go\n", "Pulumi.json": '{"name": "kept", "runtime": "go"}'}



def named(files):
    found = {f: v for f, v in files.items() if f in FILES}
    return {f: yaml.safe_load(v) for f, v in found.items()}


def run(case, ctx):
    r = ctx.rng()
    base = os.path.join(ctx.tmp, "c39")
    shutil.rmtree(base, ignore_errors=True)
    d = os.path.join(base, "cli")
    tmp = os.path.join(base, "tmp")
    os.makedirs(tmp)
    clisim.install(os.path.join(ctx.tmp, "bin"))
    clisim.write(d, clisim.initial())
    saved, tempfile.tempdir = tempfile.tempdir, tmp
    o, p, n = (r.choice(["org", "my-org", "x_1"]) for _ in range(3))
    ctx.check(auto.fully_qualified_stack_name(o, p, n) == f"{o}/{p}/{n}", "qualified-name", lambda: auto.fully_qualified_stack_name(o, p, n))
    old = dict(os.environ)
    os.environ["PV_CLI"] = d
    os.environ.pop("PULUMI_AUTOMATION_API_SKIP_VERSION_CHECK", None)
    try:
        (race if case["threads"] else sequence)(r, ctx, d, base, tmp)
    finally:
        tempfile.tempdir = saved
        os.environ.clear()
        os.environ.update(old)


def outcome(fn):
    try:
        return fn(), None
    except Exception as exn:  # pylint: disable=broad-except
        return None, exn


def sequence(r, ctx, d, base, tmp):  # pylint: disable=too-many-locals,too-many-statements,too-many-branches
    exists = set()
    calls = []
    for step in range(r.choice([3, 5, 8])):
        name = r.choice(NAMES[:r.choice([2, 5])])
        how = r.choice(list(FUNCTIONS))
        program = r.choice([None, lambda: None, lambda: None])
        project = r.choice([None, "the-proj", "the-proj"])
        work = os.path.join(base, f"work{r.choice([0, 1, step])}") if r.random() < 0.5 else None
        other = os.path.join(base, f"other{step}") if r.random() < 0.35 else None
        for x in (work, other):
            if x and not os.path.exists(x):
                os.makedirs(x)
                if r.random() < 0.4:
                    f = r.choice(list(FILES))
                    with open(os.path.join(x, f), "w", encoding="utf-8") as fh:
                        fh.write(FILES[f])
        kw, stem = {}, name.split("/")[-1]
        if other:
            kw["work_dir"] = other
        if r.random() < 0.3:
            kw["project_settings"] = auto.ProjectSettings(name="given", runtime=r.choice(["python", "go"]), main=r.choice([None, "src"]))
        if r.random() < 0.35:
            kw["stack_settings"] = {name: auto.StackSettings(config={"the-proj:k": f"v{step}"})}
        if r.random() < 0.3:
            kw["secrets_provider"] = r.choice(["passphrase", "awskms://x y"])
        if r.random() < 0.4:
            kw["env_vars"] = {"PV_STEP": str(step)}
        if r.random() < 0.3:
            kw["pulumi_home"] = os.path.join(base, "home")
        if r.random() < 0.2:
            kw["program"] = lambda: None
        opts = auto.LocalWorkspaceOptions(**kw) if kw or r.random() < 0.5 else None
        args = {k: v for k, v in (("project_name", project), ("program", program), ("work_dir", work)) if v is not None or r.random() < 0.2}
        api = r.choice(["module", "module", "module", "stack"])
        kind = "inline" if program is not None and project is not None else "local" if work is not None else "refused"
        # Commands that are out of order.
        fault = r.random() < 0.1 and r.choice([("stack init", "stack select"), ("stack init",), ("stack select",)])
        # Another CLI, too old.
        tooold = r.random() < 0.03
        if fault:
            clisim.change(d, lambda s: s["faults"].update({c: {"code": 3, "stderr": "error: out of order\n"} for c in fault}))
        if tooold:
            clisim.change(d, lambda s: s.update(version="v2.99.0"))
        if api == "stack":
            kind = "stack"
            wkw = {k: v for k, v in kw.items() if k != "work_dir"}
            where = other or work
        else:
            where = other if kind == "inline" else work
        before = {f: open(os.path.join(where, f), encoding="utf-8").read() for f in os.listdir(where)} if where else {}
        temps = set(os.listdir(tmp))
        seen = len(clisim.log(d))
        if api == "stack":
            got, exn = outcome(lambda: METHODS[how](name, auto.LocalWorkspace(work_dir=where, **wkw)))
        else:
            got, exn = outcome(lambda: FUNCTIONS[how](name, opts=opts, **args) if opts is not None or r.random() < 0.5 else FUNCTIONS[how](name, **args))
        clisim.change(d, lambda s: s["faults"].clear() or s.update(version="v3.39.3"))
        log = clisim.log(d)[seen:]
        calls.append((api, how, name, sorted(args), sorted(kw), kind, fault, tooold, repr(exn)[:200], [x["argv"] for x in log]))
        show = lambda: f"{calls[-1]} after {calls[:-1]}, existing {exists}"[:2500]  # noqa: B023, E731
        ctx.evaluated()
        ctx.count("calls")
        ctx.count(kind if kind != "stack" else "calls_of_stack")
        ctx.sig(f"{api} {how} {kind} {sorted(args)} {sorted(kw)} {name in exists} {sorted(before)} {fault}")
        changing = [x for x in log if x.get("cmd") in clisim.CHANGING or "usage" in x]
        new = [os.path.join(tmp, x) for x in set(os.listdir(tmp)) - temps]
        if kind == "refused":
            ctx.check(isinstance(exn, ValueError), "refused", show)
            ctx.check(not changing and not new, "refused-traces", show)
            continue
        # Where it works.
        if where is None:
            ctx.count("temporary")
            if not ctx.check(len(new) == 1 and os.path.isdir(new[0]), "directory", lambda: f"new temporary directories: {new}; {show()}"):
                return
            place = new[0]
        else:
            ctx.check(not new, "directory", lambda: f"made {new} although {where} was to be used; {show()}")
            place = where
        if tooold:
            ctx.count("old")
            ctx.check(isinstance(exn, errors.InvalidVersionError) and not changing, "version", show)
            after = {f: open(os.path.join(place, f), encoding="utf-8").read() for f in os.listdir(place)}
            ctx.check(after == before, "version-traces", lambda: f"{after} instead of {before}; {show()}")
            continue
        # What it runs.
        secrets = {"--secrets-provider": [kw["secrets_provider"]]} if "secrets_provider" in kw else {}
        init, select = ("stack init", name, secrets), ("stack select", name, {})
        ran = [(x["cmd"], (x["args"] or x["flags"].get("--stack") or [None])[0], {k: v for k, v in x["flags"].items() if k not in ("--non-interactive", "--stack")}) for x in changing if "usage" not in x]
        right = ran == [init] if how == "create" else ran == [select] if how == "select" else ran and len(ran) <= 3 and all(x in (init, select) for x in ran) and (name in exists or fault or init in ran)
        ctx.check(right and len(ran) == len(changing), "commands", lambda: f"{ran}; {show()}")
        for x in log:
            ctx.check(os.path.realpath(x["cwd"]) == os.path.realpath(place), "directory", lambda: f"{x['argv']} ran in {x['cwd']} instead of {place}; {show()}")
            ctx.check(x["env"].get("PULUMI_HOME") == kw.get("pulumi_home", os.environ.get("PULUMI_HOME")) and x["env"].get("PV_STEP") == kw.get("env_vars", {}).get("PV_STEP"), "environment", show)
        # The settings were there when it did.
        files = {f: v for f, v in before.items()}
        projects = named(files)
        if "project_settings" in kw:
            ctx.count("given_settings")
            p = kw["project_settings"]
            f = next(iter(projects), "Pulumi.yaml")
            projects = {f: {k: v for k, v in (("name", p.name), ("runtime", p.runtime), ("main", p.main)) if v is not None}}
        elif kind == "inline" and not projects:
            ctx.count("default_settings")
            projects = {"Pulumi.yaml": {"name": project, "runtime": "python", "main": os.getcwd()}}
        elif projects:
            ctx.count("kept_settings")
        for x in changing:
            ctx.check(named(x["files"]) == projects, "project", lambda: f"{named(x['files'])} instead of {projects} when {x['argv']} ran; {show()}")
            if "stack_settings" in kw:
                ctx.count("stack_settings")
                mine = [yaml.safe_load(v) for f, v in x["files"].items() if f.startswith(f"Pulumi.{stem}.")]
                ctx.check(len(mine) == 1 and mine[0].get("config") == {"the-proj:k": f"v{step}"}, "stack-settings", lambda: f"{x['files']} when {x['argv']} ran; {show()}")
        # What comes of it.
        hit = how == "create" and "stack init" in (fault or ()) or how == "select" and "stack select" in (fault or ()) or how == "create_or_select" and fault and len(fault) == 2
        if how == "create_or_select" and fault and len(fault) == 1:
            # Whether it's tried first depends on how it's done, but it's needed if the stack's to be created, or selected, respectively.
            hit = (name in exists) == (fault[0] == "stack select")
            hit = hit or any(x["cmd"] in fault for x in changing) and exn is not None
            ctx.count("half_faults")
        if hit:
            ctx.count("faults")
            ctx.check(isinstance(exn, errors.CommandError) and not isinstance(exn, (errors.StackNotFoundError, errors.StackAlreadyExistsError)) and "out of order" in str(exn), "fault", show)
            exists.clear()
            exists.update(clisim.read(d)["stacks"])
            continue
        if how == "create" and name in exists:
            ctx.count("exists")
            ctx.check(isinstance(exn, errors.StackAlreadyExistsError), "exists", show)
            continue
        if how == "select" and name not in exists:
            ctx.count("missing")
            ctx.check(isinstance(exn, errors.StackNotFoundError), "missing", show)
            continue
        if not ctx.check(exn is None, "outcome", show):
            return
        ctx.count("selected" if name in exists else "created")
        exists.add(name)
        state = clisim.read(d)
        ctx.check(set(state["stacks"]) == exists and state["current"] == name, "state", lambda: f"{state['stacks'].keys()} current {state['current']}; {show()}")
        ws = got.workspace
        want_program = program if kind == "inline" else kw.get("program")
        ctx.check(isinstance(got, auto.Stack) and got.name == name, "stack", lambda: f"{got!r}; {show()}")
        ctx.check(os.path.realpath(ws.work_dir) == os.path.realpath(place) and ws.program is want_program and ws.secrets_provider == kw.get("secrets_provider") and ws.pulumi_home == kw.get("pulumi_home")
                  and dict(ws.env_vars or {}) == kw.get("env_vars", {}) and ws.pulumi_version == "3.39.3", "workspace", lambda: f"{ws!r} {ws.pulumi_version}; {show()}")
        cur = ws.stack()
        ctx.check(cur is not None and cur.name == name and {s.name for s in ws.list_stacks()} == exists, "current", lambda: f"{cur}; {show()}")
        if r.random() < 0.2:
            ws.remove_stack(name)
            ctx.count("removed")
            exists.discard(name)
            ctx.check(ws.stack() is None and set(clisim.read(d)["stacks"]) == exists, "removed", show)


def race(r, ctx, d, base, tmp):
    n = r.choice([3, 5])
    how = r.choice(["create", "create_or_select", "create_or_select"])
    there = r.random() < 0.3
    if there:
        outcome(lambda: auto.create_stack("dev", project_name="p", program=lambda: None))
    seen = len(clisim.log(d))
    got = [None] * n
    programs = [(lambda k=k: k) for k in range(n)]
    dirs = [os.path.join(base, f"t{k}") if r.random() < 0.5 else None for k in range(n)]
    for x in dirs:
        if x:
            os.makedirs(x)

    def go(k):
        opts = auto.LocalWorkspaceOptions(work_dir=dirs[k], env_vars={"PV_STEP": str(k)}, project_settings=None)
        got[k] = outcome(lambda: FUNCTIONS[how]("dev", project_name=f"p{k}", program=programs[k], opts=opts))

    ts = [threading.Thread(target=go, args=(k,)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    show = lambda: f"{how} by {n} threads, {'existing' if there else 'new'}: {got}"[:2000]  # noqa: E731
    ctx.evaluated()
    ctx.count("raced", n)
    ctx.sig(f"race {how} {n} {there} {[x is None for x in dirs]}")
    log = clisim.log(d)[seen:]
    made = [x for x, exn in got if exn is None]
    ctx.check(len(made) == (n if how == "create_or_select" else 0 if there else 1), "race-outcome", show)
    ctx.check(all(exn is None or isinstance(exn, errors.StackAlreadyExistsError) for _, exn in got), "race-error", show)
    ctx.check(set(clisim.read(d)["stacks"]) == {"dev"}, "race-state", show)
    places = set()
    for k in range(n):
        mine = [x for x in log if x["env"].get("PV_STEP") == str(k) and x.get("cmd") in clisim.CHANGING]
        cmds = [x["cmd"] for x in mine]
        ctx.check(cmds == ["stack init"] if how == "create" else cmds and len(cmds) <= 3, "race-commands", lambda: f"{k}: {cmds}; {show()}")
        places |= {os.path.realpath(x["cwd"]) for x in mine}
        for x in mine:
            ctx.check([p.get("name") for p in named(x["files"]).values()] == [f"p{k}"], "race-project", lambda: f"{k}: {x['files']}; {show()}")
        s, exn = got[k]
        if exn is None:
            ctx.check(s.workspace.program is programs[k] and (dirs[k] is None or s.workspace.work_dir == dirs[k]), "race-workspace", lambda: f"{k}: {s!r}; {show()}")
    ctx.check(len(places) == n, "race-places", lambda: f"{places}; {show()}")
