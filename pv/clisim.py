"""A simulated Pulumi CLI (for the Automation API): keeps its state in the directory $PV_CLI and logs how it's run. Only the standard library is imported at the top."""
import fcntl
import json
import os
import sys
import time

# Flags by whether they take a value (as the CLI's parser, pflag, does: "--flag value", "--flag=value", "-f value").
GLOBAL = {"--stack": 1, "-s": 1, "--non-interactive": 0, "--color": 1, "--debug": 0, "-d": 0, "--verbose": 1, "-v": 1, "--logflow": 0, "--logtostderr": 0, "--tracing": 1, "--cwd": 1, "-C": 1,
          "--emoji": 0, "--profiling": 1, "--disable-integrity-checking": 0}
OP = {"--message": 1, "-m": 1, "--target": 1, "-t": 1, "--target-dependents": 0, "--parallel": 1, "-p": 1, "--exec-kind": 1, "--event-log": 1, "--yes": 0, "-y": 0, "--skip-preview": 0, "-f": 0,
      "--expect-no-changes": 0, "--client": 1, "--diff": 0, "--replace": 1, "--policy-pack": 1, "--policy-pack-config": 1, "--show-secrets": 0, "--json": 0, "-j": 0}
COMMANDS = {
    "version": {}, "whoami": {}, "stack": {},
    "stack init": {"--secrets-provider": 1}, "stack select": {"--create": 0, "-c": 0}, "stack rm": {"--yes": 0, "-y": 0, "--force": 0, "--preserve-config": 0},
    "stack ls": {"--json": 0, "-j": 0, "--all": 0}, "stack output": {"--json": 0, "-j": 0, "--show-secrets": 0},
    "stack export": {"--show-secrets": 0, "--file": 1, "--version": 1}, "stack import": {"--file": 1, "--force": 0, "-f": 0},
    "stack history": {"--json": 0, "-j": 0, "--show-secrets": 0, "--page-size": 1, "--page": 1},
    "config": {"--json": 0, "-j": 0, "--show-secrets": 0}, "config get": {"--json": 0, "-j": 0, "--path": 0}, "config set": {"--secret": 0, "--plaintext": 0, "--path": 0},
    "config set-all": {"--secret": 1, "--plaintext": 1, "--path": 0}, "config rm": {"--path": 0}, "config rm-all": {"--path": 0}, "config refresh": {"--force": 0, "-f": 0},
    "plugin install": {}, "plugin rm": {"--yes": 0, "-y": 0, "--all": 0}, "plugin ls": {"--json": 0, "-j": 0},
    "up": {**OP, "--plan": 1}, "preview": {**OP, "--save-plan": 1}, "refresh": OP, "destroy": OP, "cancel": {"--yes": 0, "-y": 0},
}
CHANGING = {"stack init", "stack select", "stack rm", "stack import", "config set", "config set-all", "config rm", "config rm-all", "config refresh", "plugin install", "plugin rm", "up", "preview",
            "refresh", "destroy", "cancel"}
LONG = {"-s": "--stack", "-d": "--debug", "-v": "--verbose", "-C": "--cwd", "-m": "--message", "-t": "--target", "-p": "--parallel", "-y": "--yes", "-j": "--json", "-c": "--create"}


class Usage(Exception):
    pass


def parse(argv):
    """(command, positional arguments, {flag: [values]}) of a command line."""
    words, flags = [], []
    known = {}
    for fl in COMMANDS.values():
        known.update(fl)
    known.update(GLOBAL)
    # The command consists of the words that name one; its own flags decide how the rest is parsed.
    i, cmd = 0, None
    for n in (2, 1):
        if " ".join(argv[:n]) in COMMANDS:
            cmd = " ".join(argv[:n])
            break
    if cmd is None:
        raise Usage(f'unknown command "{argv[:2]}" for "pulumi"')
    i = len(cmd.split())
    allowed = {**GLOBAL, **COMMANDS[cmd]}
    while i < len(argv):
        a = argv[i]
        i += 1
        if a == "--":
            words += argv[i:]
            break
        if a.startswith("-") and a != "-":
            name, eq, val = a.partition("=")
            if name not in allowed:
                raise Usage(f"unknown flag: {name}")
            if allowed[name]:
                if not eq:
                    if i >= len(argv):
                        raise Usage(f"flag needs an argument: {name}")
                    val = argv[i]
                    i += 1
            else:
                val = val if eq else "true"
            flags.append((LONG.get(name, name), val))
        else:
            words.append(a)
    res = {}
    for k, v in flags:
        res.setdefault(k, []).append(v)
    return cmd, words, res


NAMED = {"stack init": 0, "stack select": 0, "stack rm": 0}


def full(key):
    return key if ":" in key else "proj:" + key


class State:
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        self.lock = open(os.path.join(self.d, "lock"), "w", encoding="utf-8")  # pylint: disable=consider-using-with
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        with open(os.path.join(self.d, "state.json"), encoding="utf-8") as f:
            self.v = json.load(f)
        return self.v

    def __exit__(self, *_):
        tmp = os.path.join(self.d, "state.new")
        with open(tmp, "w", encoding="utf-8") as f:
            json.dump(self.v, f)
        os.rename(tmp, os.path.join(self.d, "state.json"))
        self.lock.close()


def initial(**kw):
    return {"user": "someone", "version": "v3.39.3", "stacks": {}, "current": None, "plugins": [], "ops": [], "faults": {}, **kw}


def write(d, state):
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "state.json"), "w", encoding="utf-8") as f:
        json.dump(state, f)


def read(d):
    with open(os.path.join(d, "state.json"), encoding="utf-8") as f:
        return json.load(f)


def change(d, fn):
    with State(d) as s:
        fn(s)


def log(d):
    p = os.path.join(d, "log.jsonl")
    if not os.path.exists(p):
        return []
    with open(p, encoding="utf-8") as f:
        return [json.loads(x) for x in f.read().splitlines()]


def install(bindir):
    """Puts the simulated CLI on the PATH of this process."""
    os.makedirs(bindir, exist_ok=True)
    p = os.path.join(bindir, "pulumi")
    here = os.path.dirname(os.path.abspath(__file__))
    with open(p + f".{os.getpid()}", "w", encoding="utf-8") as f:
        f.write(f"#!{sys.executable} -I\nimport sys\nsys.path.insert(0, {here!r})\nimport clisim\nclisim.main()\n")
    os.chmod(p + f".{os.getpid()}", 0o755)
    os.rename(p + f".{os.getpid()}", p)
    if os.environ.get("PATH", "").split(":")[0] != bindir:
        os.environ["PATH"] = bindir + ":" + os.environ.get("PATH", "")


def show(v, secret, mask):
    return "[secret]" if secret and mask else v


def emit(v):
    json.dump(v, sys.stdout, indent=2, ensure_ascii=False)
    sys.stdout.write("\n")


def run_program(address, spec):
    """What the engine does to run an inline program."""
    import grpc  # pylint: disable=import-outside-toplevel

    import types  # pylint: disable=import-outside-toplevel

    # The messages are wanted only, not the SDK.
    for name, path in (("pulumi", "pulumi"), ("pulumi.runtime", "pulumi/runtime")):
        mod = sys.modules[name] = types.ModuleType(name)
        mod.__path__ = [os.path.join(spec["sdk"], path)]
    sys.modules["pulumi"].runtime = sys.modules["pulumi.runtime"]
    from pulumi.runtime.proto import language_pb2, language_pb2_grpc  # pylint: disable=import-outside-toplevel

    ch = grpc.insecure_channel(address)
    grpc.channel_ready_future(ch).result(20)
    req = language_pb2.RunRequest(project=spec["project"], stack=spec["stack"], pwd=spec.get("pwd", ""), program=".", args=[spec["engine"]], config=spec["config"], dryRun=spec["preview"],
                                  parallel=spec.get("parallel", 4), monitor_address=spec["monitor"], configSecretKeys=spec.get("secret_keys", []), organization=spec.get("organization", ""))
    return language_pb2_grpc.LanguageRuntimeStub(ch).Run(req, timeout=60).error


def operation(d, cmd, flags, op, sname):
    code = 0
    flog = open(flags["--event-log"][0], "ab", buffering=0) if "--event-log" in flags else None  # pylint: disable=consider-using-with
    try:
        for act in op["actions"]:
            kind = act[0]
            if kind == "out":
                os.write(1, act[1].encode())
            elif kind == "err":
                data = act[1].encode()
                while data:
                    data = data[os.write(2, data):]
            elif kind == "event":
                if flog:
                    flog.write(act[1].encode("latin-1"))
            elif kind == "sleep":
                time.sleep(act[1])
            elif kind == "await":
                end = time.time() + 8
                while not os.path.exists(os.path.join(d, act[1])):
                    if time.time() > end:
                        os.write(2, f"TIMEOUT waiting for {act[1]}\n".encode())
                        with open(os.path.join(d, "timeouts"), "a", encoding="utf-8") as f:
                            f.write(act[1] + "\n")
                        break
                    time.sleep(0.002)
            elif kind == "touch":
                with open(os.path.join(d, act[1]), "w", encoding="utf-8"):
                    pass
            elif kind == "run":
                spec = dict(act[1])
                spec["preview"] = cmd == "preview"
                err = run_program(flags["--client"][0], spec)
                with open(os.path.join(d, spec["result"]), "w", encoding="utf-8") as f:
                    json.dump(err, f)
                if err:
                    code = 255
                    os.write(1, f"error: {err}\n".encode())
            elif kind == "exit":
                code = act[1]
    finally:
        if flog:
            flog.close()
    with State(d) as s:
        st = s["stacks"][sname]
        if cmd != "preview" and op.get("history"):
            st["history"].insert(0, op["history"])
        if cmd == "up" and "outputs" in op and code == 0:
            st["outputs"] = op["outputs"]
    return code


class Fail(Exception):
    def __init__(self, stderr, code=255):
        super().__init__(stderr)
        self.code = code


def execute(d, cmd, args, flags):
    name = (flags.get("--stack") or [None])[-1]
    if cmd in NAMED and args:
        name = args[0]

    def stack(s):
        n = name if name is not None else s["current"]
        if n not in s["stacks"]:
            raise Fail(f"error: no stack named '{n}' found\n")
        return s["stacks"][n], n

    with State(d) as s:
        fault = s["faults"].get(cmd)
        if fault:
            sys.stdout.write(fault.get("stdout", ""))
            sys.stderr.write(fault.get("stderr", ""))
            if "signal" in fault:
                sys.stdout.flush()
                sys.stderr.flush()
                os.kill(os.getpid(), fault["signal"])
            return fault["code"]
        if cmd == "version":
            print(s["version"])
        elif cmd == "whoami":
            print(s["user"])
        elif cmd == "stack init":
            if name in s["stacks"]:
                raise Fail(f"error: stack '{name}' already exists\n")
            s["stacks"][name] = {"config": {}, "outputs": {}, "history": [], "deployment": {"version": 3, "deployment": {}}, "secretsprovider": (flags.get("--secrets-provider") or [None])[-1]}
            s["current"] = name
            print(f"Created stack '{name}'")
        elif cmd == "stack select":
            if name not in s["stacks"]:
                raise Fail(f"error: no stack named '{name}' found\n")
            s["current"] = name
        elif cmd == "stack rm":
            if name not in s["stacks"]:
                raise Fail(f"error: no stack named '{name}' found\n")
            if "--yes" not in flags:
                raise Fail("error: --yes must be passed in to proceed when running in non-interactive mode\n")
            del s["stacks"][name]
            if s["current"] == name:
                s["current"] = None
        elif cmd == "stack ls":
            emit([{"name": n, "current": n == s["current"], "updateInProgress": st.get("updating", False),
                   **{k: st[k] for k in ("lastUpdate", "resourceCount", "url") if k in st}} for n, st in s["stacks"].items()])
        elif cmd == "stack output":
            st, _ = stack(s)
            emit({k: show(v["value"], v["secret"], "--show-secrets" not in flags) for k, v in st["outputs"].items()})
        elif cmd == "stack export":
            st, _ = stack(s)
            if "--show-secrets" in flags:
                emit(st["deployment"])
            else:
                emit({"version": st["deployment"]["version"], "deployment": "ciphertext"})
        elif cmd == "stack import":
            st, _ = stack(s)
            with open(flags["--file"][-1], encoding="utf-8") as f:
                st["deployment"] = json.load(f)
            print("Import successful.")
        elif cmd == "stack history":
            st, _ = stack(s)
            h = st["history"]
            # As the CLI has it: the latest 10 unless told otherwise, and all if 0.
            size, page = int((flags.get("--page-size") or ["10"])[-1]), max(1, int((flags.get("--page") or ["1"])[-1]))
            if size > 0:
                h = h[(page - 1) * size:page * size]
            out = []
            for e in h:
                e = json.loads(json.dumps(e))
                if "--show-secrets" not in flags:
                    for v in e["config"].values():
                        if v["secret"]:
                            v.pop("value", None)
                out.append(e)
            emit(out)
        elif cmd == "config":
            st, _ = stack(s)
            out = {}
            for k, v in st["config"].items():
                out[k] = {"secret": v["secret"]}
                if not v["secret"] or "--show-secrets" in flags:
                    out[k]["value"] = v["value"]
            emit(out)
        elif cmd == "config get":
            st, _ = stack(s)
            k = full(args[0])
            if k not in st["config"]:
                raise Fail(f"error: configuration key '{k}' not found for stack '{name}'\n")
            v = st["config"][k]
            emit({"name": k, "value": v["value"], "secret": v["secret"]}) if "--json" in flags else print(v["value"])
        elif cmd == "config set":
            st, _ = stack(s)
            if len(args) != 2:
                raise Fail(f"error: config set takes a key and a value, got {args}\n")
            if "--secret" not in flags and "--plaintext" not in flags:
                raise Fail("error: neither --secret nor --plaintext\n")
            st["config"][full(args[0])] = {"value": args[1], "secret": "--secret" in flags}
        elif cmd == "config set-all":
            st, _ = stack(s)
            if args:
                raise Fail(f"error: unexpected arguments {args}\n")
            for fl in ("--plaintext", "--secret"):
                for kv in flags.get(fl, []):
                    k, eq, v = kv.partition("=")
                    if not eq:
                        raise Fail(f"error: could not parse {kv}\n")
                    st["config"][full(k)] = {"value": v, "secret": fl == "--secret"}
        elif cmd in ("config rm", "config rm-all"):
            st, _ = stack(s)
            for k in args:
                st["config"].pop(full(k), None)
        elif cmd == "config refresh":
            st, _ = stack(s)
            if not st["history"]:
                raise Fail("error: no previous deployment\n")
            st["config"] = st["history"][0]["config"]
        elif cmd == "plugin install":
            s["plugins"].append({"name": args[1], "kind": args[0], "version": args[2], "size": 0})
        elif cmd == "plugin rm":
            if "--yes" not in flags:
                raise Fail("error: --yes must be passed in to proceed when running in non-interactive mode\n")
            s["plugins"] = [p for p in s["plugins"] if not (p["kind"] == args[0] and (len(args) < 2 or p["name"] == args[1]) and (len(args) < 3 or p.get("version") == args[2]))]
        elif cmd == "plugin ls":
            emit(s["plugins"])
        else:
            st, n = stack(s)
            ops = s["ops"]
            op = {"actions": []}
            for i, o in enumerate(ops):
                if o.get("stack", n) == n:
                    op = ops.pop(i)
                    break
    if cmd in ("up", "preview", "refresh", "destroy", "cancel"):
        return operation(d, cmd, flags, op, n)
    return 0


def main():
    d = os.environ["PV_CLI"]
    argv = sys.argv[1:]
    rec = {"argv": argv, "cwd": os.getcwd(), "env": dict(os.environ)}
    code = 0
    cmd = None
    try:
        cmd, args, flags = parse(argv)
        rec.update(cmd=cmd, args=args, flags=flags)
        if cmd == "stack import":
            with open(flags["--file"][-1], encoding="utf-8") as f:
                rec["file"] = f.read()
        if cmd in ("stack init", "stack select"):
            rec["files"] = {}
            for x in os.listdir("."):
                if x.startswith("Pulumi"):
                    with open(x, encoding="utf-8") as f:
                        rec["files"][x] = f.read()
        if "--event-log" in flags:
            rec["log_exists"] = os.path.exists(flags["--event-log"][-1])
    except (Usage, OSError, KeyError) as exn:
        rec["usage"] = str(exn)
    with open(os.path.join(d, "log.jsonl"), "a", encoding="utf-8") as f:
        f.write(json.dumps(rec) + "\n")
    if "usage" in rec:
        sys.stderr.write(f"error: {rec['usage']}\n")
        sys.exit(255)
    try:
        code = execute(d, cmd, args, flags)
    except Fail as exn:
        sys.stderr.write(str(exn))
        code = exn.code
    sys.stdout.flush()
    sys.exit(code)
