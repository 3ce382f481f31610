"""C28: operations of the Automation API run exactly the right command of the CLI, and deliver its output."""
import json
import os
import shutil
import threading
import time

from pulumi import automation as auto

from pv import clisim

RULE = ("One case = a workspace (random directory, home, environment, with an inline program or not) and 2-4 lifecycle operations (up, preview, refresh, destroy, cancel) with random options on 1-2 stacks, "
        "run by a simulated CLI that logs its command line, directory and environment and writes scripted output; each is compared with what was asked for, and the results with what was written; "
        "distinct by operation and options, non-trivial if some option is given.")
ASSUMPTIONS = ["the CLI parses its command line like the real one (pflag)", "trailing white space of output lines isn't compared", "options that are falsy count as not given",
               "read-only commands may be run at will, in the right directory and environment"]
CASE_TIMEOUT = 120
WORDS = ["", "plain", "two words", "--debug", "-s", "ünï ©", "a=b=c", "quote'\"", "$HOME `x` \\", "line\nbreak", "*", "x" * 5000, "--", "=", " lead", "trail "]


def plan(tier, seed):
    return [{"i": i} for i in range(360 if tier == "quick" else 5000)]


def minimum(tier):
    return {"operations": 350, "up": 60, "preview": 100, "refresh": 45, "destroy": 45, "cancel": 20, "options": 1200, "failed": 40, "streamed": 120, "events": 100, "inline": 60, "big_stderr": 20, "env_vars": 40,
            "hooked": 100, "home": 40, "secrets_hidden": 50, "imports": 30, "import_failures": 5, "changing_commands": 350}


def word(r):
    return r.choice(WORDS)


def arg(r):
    return r.choice([w for w in WORDS if w]) + r.choice(["", "1", "::x"])


URNS = ["urn:pulumi:s::p::t:m:R::n%d", "urn:pulumi:s::p::t:m:C$t:m:R::ü %d", "**a%d"]
OPTIONS = {
    # option: (generator, flag, kind)
    "parallel": (lambda r: r.choice([1, 2, 100]), "--parallel", "one"),
    "message": (arg, "--message", "one"),
    "target": (lambda r: [r.choice(URNS) % i for i in range(r.choice([1, 2, 3]))], "--target", "many"),
    "policy_packs": (lambda r: [arg(r) for _ in range(r.choice([1, 2]))], "--policy-pack", "many"),
    "policy_pack_configs": (lambda r: [arg(r) for _ in range(r.choice([1, 2]))], "--policy-pack-config", "many"),
    "expect_no_changes": (lambda r: True, "--expect-no-changes", "flag"),
    "diff": (lambda r: True, "--diff", "flag"),
    "target_dependents": (lambda r: True, "--target-dependents", "flag"),
    "replace": (lambda r: [r.choice(URNS) % i for i in range(r.choice([1, 2, 3]))], "--replace", "many"),
    "color": (lambda r: r.choice(["always", "never", "raw", "auto"]), "--color", "one"),
    "log_flow": (lambda r: True, "--logflow", "flag"),
    "log_verbosity": (lambda r: r.choice([1, 3, 9]), "--verbose", "one"),
    "log_to_std_err": (lambda r: True, "--logtostderr", "flag"),
    "tracing": (arg, "--tracing", "one"),
    "debug": (lambda r: True, "--debug", "flag"),
}
COMMON = ["parallel", "message", "target", "color", "log_flow", "log_verbosity", "log_to_std_err", "tracing", "debug"]
FOR = {
    "up": COMMON + ["policy_packs", "policy_pack_configs", "expect_no_changes", "diff", "target_dependents", "replace", "plan"],
    "preview": COMMON + ["policy_packs", "policy_pack_configs", "expect_no_changes", "diff", "target_dependents", "replace", "plan"],
    "refresh": COMMON + ["expect_no_changes"],
    "destroy": COMMON + ["target_dependents"],
    "cancel": [],
}


def history(r, i):
    return {"kind": r.choice(["update", "destroy"]), "startTime": f"2022-0{1 + i % 9}-03T04:05:06.000Z", "message": word(r), "environment": {"exec.kind": word(r)},
            "config": {"p:a": {"value": "v%d" % i, "secret": False}, "p:s": {"value": "hidden%d" % i, "secret": True}}, "result": "succeeded", "endTime": "2022-02-03T04:05:06.000Z", "version": i + 1,
            "resourceChanges": {"create": i}}


class Hooked(auto.LocalWorkspace):
    """A workspace with arguments of its own."""

    extra, called, log_of = [], [], None

    def serialize_args_for_op(self, stack_name):
        return [a.replace("STACK", stack_name) for a in self.extra]

    def post_command_callback(self, stack_name):
        self.called.append((stack_name, [x["cmd"] for x in clisim.log(self.log_of)][-1]))


def run(case, ctx):  # pylint: disable=too-many-locals
    r = ctx.rng()
    base = os.path.join(ctx.tmp, "c28")
    shutil.rmtree(base, ignore_errors=True)
    d = os.path.join(base, "cli")
    work = os.path.join(base, r.choice(["work", "wörk dir"]))
    os.makedirs(work)
    tmp = os.path.join(base, "tmp")
    os.makedirs(tmp)
    clisim.install(os.path.join(ctx.tmp, "bin"))
    clisim.write(d, clisim.initial())
    import tempfile

    saved, tempfile.tempdir = tempfile.tempdir, tmp
    old = dict(os.environ)
    os.environ["PV_CLI"] = d
    os.environ["PV_MARK"] = "mark" + str(case["i"])
    try:
        sequence(r, ctx, d, work, tmp, base)
    finally:
        tempfile.tempdir = saved
        os.environ.clear()
        os.environ.update(old)


def sequence(r, ctx, d, work, tmp, base):
    inline = r.random() < 0.3
    env_vars = {k: word(r) for k in r.sample(["AAA", "PULUMI_BACKEND_URL", "PV_MARK", "B_B"], r.choice([0, 0, 1, 2]))} or None
    home = os.path.join(base, "höme") if r.random() < 0.5 else None
    if env_vars and r.random() < 0.2:
        env_vars["PULUMI_HOME"] = "/from/env"
    program = (lambda: None) if inline else None
    secrets_provider = r.choice([None, None, "passphrase", arg(r)])
    hooked = r.random() < 0.3
    ws = (Hooked if hooked else auto.LocalWorkspace)(work_dir=work, pulumi_home=home, program=program, env_vars=env_vars, secrets_provider=secrets_provider)
    if hooked:
        ws.extra = r.choice([[], ["--emoji"], ["--profiling=p STACK"], ["--profiling", "p", "--emoji"]])
        ws.called, ws.log_of = [], d
    ctx.count("env_vars", bool(env_vars))
    ctx.count("home", home is not None)
    want_env = {**{k: v for k, v in os.environ.items() if k != "PULUMI_DEBUG_COMMANDS"}, **({"PULUMI_HOME": home} if home else {}), **(env_vars or {})}
    names = r.sample(["dev", "org/proj/prod", "x_y.z-1"], r.choice([1, 2]))
    stacks = [auto.Stack.create(n, ws) for n in names]
    expected = [("stack init", n, {"--secrets-provider": [secrets_provider]} if secrets_provider else {}) for n in names]
    seen = 0

    def commands():
        nonlocal seen
        log = clisim.log(d)
        new, seen = log[seen:], len(log)
        for rec in new:
            ctx.check("usage" not in rec, "usage", lambda: f"{rec['argv']}: {rec.get('usage')}")
            ctx.check(os.path.realpath(rec["cwd"]) == os.path.realpath(work), "directory", lambda: f"{rec['argv']} ran in {rec['cwd']} instead of {work}")
            env = {k: v for k, v in rec["env"].items() if k not in ("PULUMI_DEBUG_COMMANDS", "LC_CTYPE")}
            want = {k: v for k, v in want_env.items() if k != "LC_CTYPE"}
            ctx.check(env == want, "environment", lambda: f"{rec['argv']}: {sorted(set(env.items()) ^ set(want.items()))}")
            ctx.check("--non-interactive" in rec.get("flags", {}), "interactive", lambda: f"{rec['argv']}")
        return [x for x in new if "usage" not in x]

    for rec, (c, n, fl) in zip(commands()[1:], expected):
        flags = {k: v for k, v in rec["flags"].items() if k != "--non-interactive"}
        name = rec["args"][0] if rec["args"] else flags.pop("--stack", [None])[0]
        ctx.check((rec["cmd"], name, flags) == (c, n, fl), "command", lambda: f"creating a stack ran {rec['argv']} instead of {c} {n} {fl}")
    for i in range(r.choice([2, 3, 4])):
        stack = r.choice(stacks)
        kind = r.choice(["up", "up", "preview", "preview", "refresh", "destroy", "cancel", "import"])
        before = set(os.listdir(tmp))
        threads = threading.active_count()
        if kind == "import":
            do_import(r, ctx, d, stack, commands)
        else:
            do_op(r, ctx, d, stack, kind, i, inline, commands, home, want_env)
        left = set(os.listdir(tmp)) - before
        ctx.check(not left, "temporary-files", lambda: f"{kind} left {left}")
        end = time.time() + 3
        while threading.active_count() > threads and time.time() < end:
            time.sleep(0.01)


def do_import(r, ctx, d, stack, commands):
    state = {"version": r.choice([1, 3]), "deployment": {"manifest": {"x": word(r)}, "resources": [{"urn": "u", "n": r.choice([None, 1.5, True, [], {}])}]}}
    fail = r.random() < 0.35
    if fail:
        clisim.change(d, lambda s: s["faults"].update({"stack import": {"stderr": "error: cannot import\n", "code": 7}}))
    exc = None
    try:
        stack.import_stack(auto.Deployment(**state))
    except auto.CommandError as e:
        exc = e
    clisim.change(d, lambda s: s["faults"].clear())
    ctx.count("imports")
    ctx.count("import_failures", fail)
    ctx.check((exc is not None) == fail, "outcome", lambda: f"import_stack fail={fail}: {exc!r}")
    recs = [x for x in commands() if x["cmd"] in clisim.CHANGING]
    ctx.check([x["cmd"] for x in recs] == ["stack import"] and recs[0]["flags"].get("--stack") == [stack.name] and json.loads(recs[0]["file"]) == state, "command",
              lambda: f"import of {state} into {stack.name} ran {[(x['argv'], x.get('file')) for x in recs]}")
    for x in recs:
        ctx.check(not os.path.exists(x["flags"]["--file"][0]), "temporary-files", lambda: f"import left {x['flags']['--file']}")


def do_op(r, ctx, d, stack, kind, i, inline, commands, home, want_env):  # pylint: disable=too-many-locals
    opts = {}
    ws = stack.workspace
    hooked = isinstance(ws, Hooked)
    if hooked:
        ctx.count("hooked")
        ws.called.clear()
    for k in FOR[kind]:
        if r.random() < 0.3:
            opts[k] = arg(r) if k == "plan" else OPTIONS[k][0](r)
    want = {"--stack": [stack.name], "--non-interactive": ["true"]}
    if kind != "preview":
        want["--yes"] = ["true"]
    if kind in ("up", "refresh", "destroy"):
        want["--skip-preview"] = ["true"]
    for a in ws.extra if hooked else ():
        if a.startswith("--"):
            want[a.split("=")[0]] = [f"p {stack.name}"] if "=" in a else ["p"] if a == "--profiling" else ["true"]
    for k, v in opts.items():
        if k == "plan":
            want["--plan" if kind == "up" else "--save-plan"] = [v]
            continue
        _, fl, how = OPTIONS[k]
        want[fl] = [str(v)] if how == "one" else list(v) if how == "many" else ["true"]
    ctx.count("options", len(opts))
    falsy = {k: r.choice([None, False, [], ""]) for k in FOR[kind] if k not in opts and k not in ("plan", "parallel", "log_verbosity") and r.random() < 0.1}
    falsy = {k: (v if not isinstance(v, list) or OPTIONS[k][2] == "many" else None) for k, v in falsy.items()}
    # The script of the CLI.
    lines, errs, got, acts = [], "", [], []
    want_events = r.random() < 0.5 and kind != "cancel"
    listen = r.random() < 0.6 and kind != "cancel"
    fail = r.random() < 0.15
    for n in range(r.choice([0, 1, 2, 4])):
        text = r.choice([f"line {n}", "", "  indented ü", "tab\t|", "x" * 70000, "[secret] {}"])
        lines.append(text)
        if r.random() < 0.3 and len(text) > 1:
            cut = r.randrange(1, len(text))
            acts += [["out", text[:cut]], ["sleep", 0.005], ["out", text[cut:] + "\n"]]
        else:
            acts.append(["out", text + "\n"])
        if listen and r.random() < 0.6:
            # The CLI goes on only once the line was delivered.
            acts.append(["await", f"line{i}-{n}"])
            ctx.count("streamed")
    if r.random() < 0.3:
        errs = r.choice(["warning: ü\n", "no newline", "e" * 300000 + "\n"])
        ctx.count("big_stderr", len(errs) > 100000)
        acts.insert(r.randrange(len(acts) + 1), ["err", errs])
    summary = {"sequence": 5, "timestamp": 7, "summaryEvent": {"maybeCorrupt": False, "durationSeconds": 3, "resourceChanges": {"create": r.choice([0, 1, 7]), "same": 2}, "PolicyPacks": {}}}
    events = [{"sequence": 1, "timestamp": 5, "stdoutEvent": {"message": "m", "color": "never"}}, summary, {"sequence": 9, "timestamp": 8, "cancelEvent": {}}]
    for e in events:
        acts.append(["event", json.dumps(e) + "\n"])
    if fail:
        acts.append(["exit", r.choice([1, 2, 255])])
    hist = history(r, i)
    outputs = {"o": {"value": r.choice([None, "x", {"a": [1]}]), "secret": False}, "s": {"value": "sec", "secret": True}}
    clisim.change(d, lambda s: s["ops"].append({"stack": stack.name, "actions": acts, "history": hist, "outputs": outputs}))
    kw = {**opts, **falsy}
    if kind == "cancel":
        kw = {}
    seen_events = []
    if listen:
        def on_output(text):
            got.append(text)
            n = len(got) - 1
            with open(os.path.join(d, f"line{i}-{n}"), "w", encoding="utf-8"):
                pass

        kw["on_output"] = on_output
    if want_events:
        kw["on_event"] = seen_events.append
        ctx.count("events")
    show = True
    if kind in ("up", "refresh", "destroy"):
        show = r.choice([None, True, False])
        if show is not None:
            kw["show_secrets"] = show
        show = show is not False
        ctx.count("secrets_hidden", not show)
    this_inline = inline
    if kind in ("up", "preview") and r.random() < 0.15:
        kw["program"] = lambda: None
        this_inline = True
    ctx.count("operations")
    ctx.count(kind)
    ctx.count("inline", this_inline)
    ctx.count("failed", fail)
    ctx.evaluated()
    ctx.sig(kind + ",".join(sorted(opts)))
    what = f"{kind}({({k: str(v)[:60] for k, v in kw.items()})}) of {stack.name}"
    res = exc = None
    try:
        res = getattr(stack, kind)(**kw)
    except Exception as e:  # pylint: disable=broad-except
        exc = e
    ctx.check(exc is None or isinstance(exc, auto.CommandError), "failed", lambda: f"{what}: {exc!r}"[:1500])
    delivered = list(got)
    recs = commands()
    changing = [x for x in recs if x["cmd"] in clisim.CHANGING]
    ctx.count("changing_commands", len(changing))
    if not ctx.check([x["cmd"] for x in changing] == [kind], "command", lambda: f"{what} ran {[x['argv'] for x in changing]}"):
        return
    rec = changing[0]
    flags = dict(rec["flags"])
    client, log, ek = flags.pop("--client", None), flags.pop("--event-log", None), flags.pop("--exec-kind", None)
    ctx.check(flags == want and not rec["args"], "options", lambda: f"{what} ran {rec['argv']}, i.e. {sorted(set(map(str, flags.items())) ^ set(map(str, want.items())))}")
    if kind != "cancel":
        ctx.check(ek == ["auto.inline" if this_inline else "auto.local"], "exec-kind", lambda: f"{what}: {ek}")
    if hooked and not fail:
        ctx.check((stack.name, kind) in ws.called and {n for n, _ in ws.called} == {stack.name}, "hook", lambda: f"{what}: after its command, the workspace was told {ws.called}")
    ctx.check((client is not None) == (this_inline and kind in ("up", "preview")), "client", lambda: f"{what}: {client}")
    if want_events or log:
        ctx.check(log is not None and rec.get("log_exists") and rec["env"].get("PULUMI_DEBUG_COMMANDS") == "true", "event-log", lambda: f"{what}: {log} {rec.get('log_exists')}")
        ctx.check(not log or not os.path.exists(log[0]), "temporary-files", lambda: f"{what} left {log}")
    if want_events:
        ctx.check([e.sequence for e in seen_events] == [e["sequence"] for e in events], "events", lambda: f"{what} delivered {seen_events}")
    for x in recs:
        if x is not rec and x["cmd"].startswith("stack ") and x["cmd"] not in ("stack ls",):
            ctx.check(x["flags"].get("--stack") == [stack.name], "other-stack", lambda: f"{what} also ran {x['argv']}")
    ctx.check(not os.path.exists(os.path.join(d, "timeouts")), "not-streamed", lambda: f"{what}: lines of output were not delivered while the command ran: {delivered}")
    text = [x.rstrip() for x in lines]
    if listen:
        ctx.check(delivered == text, "output", lambda: f"{what} delivered {str(delivered)[:500]} instead of {str(text)[:500]}")
    # The outcome.
    if fail:
        ctx.check(exc is not None and res is None, "failure-lost", lambda: f"{what} failed but returned {res!r}")
        if exc is not None:
            ctx.check(all(x in str(exc) for x in text) and errs in str(exc), "failure-text", lambda: f"{what}: the error is {str(exc)[:300]}")
        return
    if not ctx.check(exc is None, "failed", lambda: f"{what}: {exc!r}"[:1500]):
        return
    if kind == "cancel":
        ctx.check(res is None, "result", lambda: f"{what}: {res!r}")
        return
    ctx.check(res.stdout.split("\n") == (text or [""]) and res.stderr == errs, "result", lambda: f"{what}: {res.stdout[:300]!r} {res.stderr[:300]!r}")
    if kind == "preview":
        ctx.check(res.change_summary == summary["summaryEvent"]["resourceChanges"], "result", lambda: f"{what}: {res.change_summary}")
        return
    s = res.summary
    conf = {k: (v.value, v.secret) for k, v in s.config.items()}
    wconf = {k: (v["value"] if show or not v["secret"] else "[secret]", v["secret"]) for k, v in hist["config"].items()}
    ctx.check((s.version, s.message, s.kind, s.resource_changes) == (hist["version"], hist["message"], hist["kind"], hist["resourceChanges"]) and conf == wconf, "summary",
              lambda: f"{what}: {s!r} {conf} instead of {hist} {wconf}")
    if kind == "up":
        o = {k: (v.value, v.secret) for k, v in res.outputs.items()}
        ctx.check(o == {k: (v["value"], v["secret"]) for k, v in outputs.items()}, "outputs", lambda: f"{what}: {o}")
