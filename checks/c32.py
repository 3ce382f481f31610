"""C32: inline programs given to Stack.up and Stack.preview are run once, with the operation's settings, and their outcome is the operation's."""
import json
import os
import random
import shutil
import socket
import threading
import time

from pulumi import automation as auto

from pv import clisim
from pv.core import SDK
from pv.inline import Prog

RULE = ("One case = 1-4 stacks of own directories, at once or in turns, each running 1-3 operations (up, preview, refresh, destroy) with random inline programs of the workspace or the operation; a simulated CLI runs "
        "them by way of the language server whose address it's given, or dies before, after or instead; the result, the exception, the engine's trace and the arguments of the CLI are compared with a model; distinct by "
        "operations and programs, non-trivial if a program fails or overlaps with another.")
ASSUMPTIONS = ["the CLI runs the program at most once per operation", "the engine reports the error that the language server answers on the CLI's stdout"]
CASE_TIMEOUT = 150
FAILING = ["top", "runerror", "callback", "coroutine", "rejected", "invoke", "rpc"]


def plan(tier, seed):
    return [{"i": i} for i in range(128 if tier == "quick" else 2500)]


def minimum(tier):
    return {"operations": 150, "programs": 100, "at_once": 50, "failing": 35, "up": 50, "preview": 40, "other": 15, "overriding": 25, "dies": 6, "inline_error": 10, "run_error": 2, "rpc_error": 2, "no_program": 5}


def closed(port):
    """Whether nothing listens any longer (servers may take a moment to stop)."""
    end = time.time() + 5
    while time.time() < end:
        s = socket.socket()
        s.settimeout(1)
        try:
            s.connect(("127.0.0.1", port))
        except OSError:
            return True
        finally:
            s.close()
        time.sleep(0.01)
    return False


class Op:
    def __init__(self, r, tag, stack, default):
        self.kind = r.choice(["up", "up", "up", "preview", "preview", "refresh", "destroy"])
        self.tag = tag
        self.default = default
        self.override = self.kind in ("up", "preview") and (not default or r.random() < 0.4)
        self.runs_program = self.kind in ("up", "preview")
        self.dies = r.choice(["before", "after"]) if r.random() < 0.12 else None
        how = r.choice(["ok"] * 6 + FAILING)
        self.prog = Prog(random.Random(r.random()), tag, how=how, dynamic=0.15)
        self.prog.preview = self.kind == "preview"
        self.prog.engine.preview = self.prog.preview
        self.prog.stack = self.prog.engine.stack = stack
        self.prog.rounds = 1
        self.printed = [f"line {i} of {tag}" for i in range(r.choice([0, 2, 5]))]
        self.use_output, self.use_event = r.random() < 0.5, r.random() < 0.4
        self.lines, self.events = [], []
        self.error = self.res = None
        self.log = None
        self.unused_runs = 0

    def start(self, d, stack, holder):
        p = self.prog
        acts = [["out", x + "\n"] for x in self.printed]
        if self.kind in ("up", "preview"):
            p.serve()
            if self.dies != "before":
                acts.append(["run", {"sdk": SDK, "project": p.project, "stack": p.stack, "engine": p.addr, "monitor": p.addr, "config": p.config, "secret_keys": p.secret_keys, "organization": p.org,
                                     "result": "result-" + self.tag}])
        if self.dies:
            acts.append(["exit", 3])
        acts.append(["event", json.dumps({"sequence": 1, "timestamp": 5, "summaryEvent": {"maybeCorrupt": False, "durationSeconds": 1, "resourceChanges": {"create": len(self.tag)}, "PolicyPacks": {}}}) + "\n"])
        acts.append(["event", json.dumps({"sequence": 2, "timestamp": 5, "cancelEvent": {}}) + "\n"])
        clisim.change(d, lambda s: s["ops"].append({"stack": stack.name, "actions": acts, "outputs": {k: {"value": v, "secret": False} for k, v in p.exports.items()}, "history": {
            "kind": "update", "startTime": "2022-01-01T00:00:00.000Z", "message": self.tag, "environment": {}, "config": {}, "result": "succeeded"}}))
        kw = {}
        if self.use_output:
            kw["on_output"] = self.lines.append
        if self.use_event:
            kw["on_event"] = self.events.append
        if self.override:
            kw["program"] = p.program
        # The workspace's own program isn't run if the operation is given one.
        holder["program"] = self.unused if self.override else p.program
        try:
            self.res = getattr(stack, self.kind)(**kw)
        except BaseException as exn:  # pylint: disable=broad-except
            self.error = exn
        finally:
            p.stop()
        self.log = [x for x in clisim.log(d) if x.get("cmd") == self.kind][-1]

    def unused(self):
        self.unused_runs += 1

    def verify(self, ctx, d):  # pylint: disable=too-many-branches
        p, show = self.prog, f"{self.kind} override={self.override} default={self.default} dies={self.dies} {self.prog.show()}"
        ctx.evaluated()
        ctx.count("operations")
        ctx.count(self.kind if self.runs_program else "other")
        ctx.count("overriding", self.override and self.default)
        ctx.count("dies", bool(self.dies))
        ctx.count("no_program", not self.default and not self.runs_program)
        fl = self.log["flags"]
        inline = self.override or self.default
        ctx.check(fl.get("--exec-kind") == ["auto.inline" if inline else "auto.local"], "exec-kind", lambda: f"{show}: {fl}")
        ctx.check(("--client" in fl) == self.runs_program, "client", lambda: f"{show}: {fl}")
        ctx.check(self.unused_runs == 0, "overridden", lambda: f"{show}: the workspace's program was run")
        good = not self.dies and (p.how == "ok" or not self.runs_program)
        ctx.check((self.error is None) == good, "outcome", lambda: f"{show}: {self.error!r}"[:1500])
        text = str(self.error)
        path = os.path.join(d, "result-" + self.tag)
        if self.runs_program and self.dies != "before":
            if not ctx.check(os.path.exists(path), "server", lambda: f"{show}: the program could not be run: {text}"[:2000]):
                return
            with open(path, encoding="utf-8") as f:
                p.verify(ctx, json.load(f))
            ctx.count("failing", p.how != "ok")
        else:
            ctx.check(p.runs == 0, "runs", lambda: f"{show}: ran {p.runs} times")
        if not good:
            ctx.check(isinstance(self.error, auto.CommandError), "exception", lambda: f"{show}: {self.error!r}"[:1500])
            if self.runs_program and self.dies != "before" and p.how != "ok":
                ctx.check("why-" + self.tag in text, "reason", lambda: f"{show}: {text}"[:1500])
                expected = p.how not in ("runerror", "rpc")
                if p.how in ("top", "callback", "coroutine"):
                    ctx.count("inline_error")
                    ctx.check(isinstance(self.error, auto.InlineSourceRuntimeError), "exception", lambda: f"{show}: {self.error!r}"[:1500])
                elif not expected:
                    ctx.count("run_error" if p.how == "runerror" else "rpc_error")
                    ctx.check(not isinstance(self.error, auto.InlineSourceRuntimeError), "exception", lambda: f"{show}: {self.error!r}"[:1500])
            ctx.check(all(x in text for x in self.printed), "printed", lambda: f"{show}: {text}"[:1500])
        else:
            want = self.printed
            ctx.check(self.res.stdout.split("\n") == (want or [""]), "stdout", lambda: f"{show}: {self.res.stdout!r}")
            if self.kind == "up":
                got = {k: (v.value, v.secret) for k, v in self.res.outputs.items()}
                ctx.check(got == {k: (v, False) for k, v in p.exports.items()}, "outputs", lambda: f"{show}: {got}")
            if self.kind == "preview":
                ctx.check(self.res.change_summary == {"create": len(self.tag)}, "change-summary", lambda: f"{show}: {self.res.change_summary}")
            else:
                ctx.check(self.res.summary.message == self.tag, "summary", lambda: f"{show}: {self.res.summary}")
        if self.use_output:
            ctx.check([x.rstrip("\n") for x in self.lines][:len(self.printed)] == self.printed, "on-output", lambda: f"{show}: {self.lines}"[:1500])
        if self.use_event and not self.error:
            ctx.check([e.sequence for e in self.events] == [1, 2], "on-event", lambda: f"{show}: {[e.sequence for e in self.events]}")
        if "--client" in fl:
            port = int(fl["--client"][0].rsplit(":", 1)[1])
            ctx.check(closed(port), "server-left", lambda: f"{show}: the language server still listens")


def run(case, ctx):
    r = ctx.rng()
    base = os.path.join(ctx.tmp, "c32")
    shutil.rmtree(base, ignore_errors=True)
    clisim.install(os.path.join(ctx.tmp, "bin"))
    n = r.choice([1, 2, 2, 3, 4])
    at_once = n > 1 and r.random() < 0.7
    tags = iter("abcdefghijklmnop")
    todo, errors = [], []
    for k in range(n):
        d = os.path.join(base, f"cli{k}")
        clisim.write(d, clisim.initial())
        default = r.random() < 0.8
        ops = [Op(r, next(tags), f"stack{k}", default) for _ in range(r.choice([1, 2, 3]) if n < 3 else 1)]
        todo.append((k, d, default, ops))

    def work(k, d, default, ops):
        try:
            os.makedirs(os.path.join(base, f"work{k}"), exist_ok=True)
            holder = {}
            kw = {"program": lambda: holder["program"](), "project_name": "anything"} if default else {"work_dir": os.path.join(base, f"work{k}")}
            if not default:
                with open(os.path.join(base, f"work{k}", "Pulumi.yaml"), "w", encoding="utf-8") as f:
                    f.write("name: anything\nruntime: python\n")
            stack = auto.create_or_select_stack(f"stack{k}", opts=auto.LocalWorkspaceOptions(env_vars={"PV_CLI": d}, pulumi_home=os.path.join(base, f"home{k}")), **kw)
            for o in ops:
                o.start(d, stack, holder)
        except BaseException as exn:  # pylint: disable=broad-except
            errors.append(exn)

    # The workspace asks for the version before it's given its variables.
    os.environ["PV_CLI"] = todo[0][1]
    try:
        if at_once:
            ths = [threading.Thread(target=work, args=t, daemon=True) for t in todo]
            for t in ths:
                t.start()
            for t in ths:
                t.join(70)
                if not ctx.check(not t.is_alive(), "hang", lambda: f"operations don't end: {[[o.prog.show() for o in t[3]] for t in todo]}"):
                    return
        else:
            for t in todo:
                work(*t)
    finally:
        del os.environ["PV_CLI"]
    if errors:
        raise errors[0]
    ctx.count("at_once", at_once and sum(len(t[3]) for t in todo))
    ctx.sig(str(at_once) + ";".join(",".join(o.kind + o.prog.how for o in t[3]) for t in todo))
    for _, d, _, ops in todo:
        for o in ops:
            o.verify(ctx, d)
    shutil.rmtree(base, ignore_errors=True)
