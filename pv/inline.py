"""Random inline programs that tell whether what they see and do is theirs alone."""
import asyncio
import threading
import time

import grpc
import pulumi
from pulumi import ComponentResource, CustomResource, Output, ResourceOptions
from pulumi.dynamic import CreateResult, ResourceProvider
from pulumi.dynamic import Resource as DynResource

from pv import grpcsrv, wire
from pv.engine import Engine, RpcFault

HOWS = ["ok", "ok", "ok", "ok", "top", "runerror", "callback", "coroutine", "rejected", "invoke", "rpc"]


class EngineError(grpc.RpcError):
    """What a program raises that made a failing call of its own."""

    def __init__(self, why):
        super().__init__(why)
        self.why = why

    def code(self):
        return grpc.StatusCode.INVALID_ARGUMENT

    def details(self):
        return self.why


class Comp(ComponentResource):
    def __init__(self, name, opts=None):
        super().__init__("my:c:Comp", name, {}, opts)


def organization():
    try:
        return pulumi.get_organization()
    except Exception as exn:  # pylint: disable=broad-except
        return "" if "organization" in str(exn) else repr(exn)


class Prog:
    """One inline program with its engine; `tag` makes everything it does recognizable."""

    def __init__(self, r, tag, how=None, dynamic=0.3, barrier=None):
        self.r, self.tag, self.barrier = r, tag, barrier
        self.how = how or r.choice(HOWS)
        self.project, self.stack = "proj-" + tag, "stk-" + tag
        self.org = r.choice(["", "org-" + tag, "ORG Ü-" + tag])
        self.preview = r.random() < 0.3
        self.config = {f"proj-{tag}:k": "v-" + tag, "shared:key": "shared-" + tag} if r.random() < 0.6 else {}
        if self.config and r.random() < 0.02:  # more than gRPC allows for by default
            self.config[f"proj-{tag}:big"] = "b" * 5_000_000
        self.secret_keys = ["shared:key"] if self.config and r.random() < 0.6 else []
        self.count = r.choice([1, 3, 8])
        self.rounds = r.choice([1, 2, 3])
        self.transform = r.random() < 0.3
        self.dynamic = r.random() < dynamic
        self.function = r.random() < 0.4
        self.comp = r.random() < 0.4
        self.sleepy = r.random() < 0.5
        self.exports = {f"out-{tag}-{i}": f"x{i}-{tag}" for i in range(r.choice([0, 1, 2]))}
        self.seen, self.runs, self.callbacks = None, 0, []
        self.thread = None
        self.engine = Engine(project=self.project, stack=self.stack, preview=self.preview, on_register=self.on_register, on_invoke=self.on_invoke,
                             schedule=r.choice([None, "sleep"]), seed=tag)
        self.server = self.addr = None

    def on_register(self, q, urn):
        if q.name == "rejected-" + self.tag:
            raise RpcFault(3, "why-" + self.tag)
        return None

    def on_invoke(self, q):
        if q.tok == "t:m:failing":
            return ("failures", [("p", "why-" + self.tag)])
        return ("return", {"r": "answer-" + self.tag})

    def pause(self):
        if self.barrier is not None:
            try:
                self.barrier.wait(0.2)
            except threading.BrokenBarrierError:
                self.barrier.reset()
        elif self.sleepy:
            time.sleep(self.r.choice([0, 0.001, 0.01]))

    def observe(self):
        cfg = pulumi.Config()
        keys = [k for t in ("a", "b", "c", "d", "e", "f") for k in (f"proj-{t}:k", f"proj-{t}:big")] + ["shared:key"]
        return {"project": pulumi.get_project(), "stack": pulumi.get_stack(), "dry": pulumi.runtime.is_dry_run(), "k": cfg.get("k"),
                "config": {k: pulumi.runtime.get_config(k) for k in keys if pulumi.runtime.get_config(k) is not None},
                "secret": pulumi.runtime.is_config_secret("shared:key"), "org": organization(),
                "root": pulumi.runtime.get_root_resource()._name}

    def names(self):
        t = self.tag
        s = {f"r{i}-{t}" for i in range(self.count)}
        s |= {f"late{i}-{t}" for i in range(self.rounds)}
        if self.comp:
            s |= {f"comp-{t}", f"child-{t}"}
        if self.dynamic:
            s |= {f"dyn-{t}"}
        return s

    def program(self):  # pylint: disable=too-many-locals
        self.runs += 1
        self.thread = threading.get_ident()
        t = self.tag
        self.seen = [self.observe()]
        if self.transform:
            def tr(args):
                return pulumi.ResourceTransformationResult(props={**args.props, "mark": "mark-" + t}, opts=args.opts)

            pulumi.runtime.register_stack_transformation(tr)
        pulumi.info("log-" + t)
        self.pause()
        prev = None
        for i in range(self.count):
            res = CustomResource("t:m:R", f"r{i}-{t}", {"tag": t, "prev": prev.urn if prev else None})
            prev = res
            if i % 3 == 1:
                self.pause()
        if self.comp:
            c = Comp(f"comp-{t}")
            CustomResource("t:m:R", f"child-{t}", {"tag": t}, ResourceOptions(parent=c))
        if self.dynamic:
            secret = {"mine": "state-" + t, "set": {t + "1", t + "2"}}

            class P(ResourceProvider):
                def create(self, props):
                    return CreateResult("id", {"got": secret["mine"], **props})

            DynResource(P(), f"dyn-{t}", {"tag": t})
        if self.function:
            self.answer = pulumi.runtime.invoke("t:m:fn", {"tag": t}).value
            self.pause()
        tag, callbacks, see, seen = t, self.callbacks, self.observe, self.seen

        def late(i):
            def cb(v):
                callbacks.append((i, v))
                seen.append(see())
                CustomResource("t:m:R", f"late{i}-{tag}", {"tag": tag})
                return "done"

            return cb

        for i in range(self.rounds):
            # In a preview, the URN is known as well.
            prev.urn.apply(late(i))
        for k, v in self.exports.items():
            pulumi.export(k, v)
        self.pause()
        self.seen.append(self.observe())

        def fail(_=None):
            raise ValueError("why-" + t)

        async def failing():
            await asyncio.sleep(0.005)
            fail()

        if self.how == "top":
            fail()
        if self.how == "runerror":
            raise pulumi.RunError("why-" + t)
        if self.how == "rpc":
            raise EngineError("why-" + t)
        if self.how == "callback":
            prev.urn.apply(fail)
        if self.how == "coroutine":
            Output.from_input(failing())
        if self.how == "rejected":
            CustomResource("t:m:R", "rejected-" + t, {"tag": t})
        if self.how == "invoke":
            pulumi.runtime.invoke("t:m:failing", {"tag": t})

    def serve(self):
        self.server, self.addr = grpcsrv.serve(self.engine, 8)

    def stop(self):
        if self.server:
            self.server.stop(0)
        self.engine.close()

    def show(self):
        return (f"program {self.tag}: how={self.how} count={self.count} rounds={self.rounds} preview={self.preview} config={str(self.config)[:300]} transform={self.transform} dynamic={self.dynamic} function={self.function} "
                f"comp={self.comp}")

    def verify(self, ctx, error, others=()):
        ctx.evaluated()
        ctx.count("programs")
        ctx.count("how_" + self.how)
        t, show = self.tag, self.show
        ctx.check(self.runs == 1, "runs", lambda: f"ran {self.runs} times; {show()}")
        good = self.how == "ok"
        ctx.check((not error) == good, "outcome", lambda: f"{show()}: error {error!r}"[:1500])
        if not good:
            ctx.check("why-" + t in (error or ""), "reason", lambda: f"{show()}: error {error!r}"[:1500])
        for o in others:
            ctx.check("why-" + o.tag not in (error or ""), "foreign-failure", lambda: f"{show()}: error {error!r}"[:1500])
        want = {"project": self.project, "stack": self.stack, "dry": self.preview, "k": self.config.get(f"proj-{t}:k"), "config": self.config, "secret": bool(self.secret_keys), "org": self.org,
                "root": f"{self.project}-{self.stack}"}
        for got in self.seen or [None]:
            ctx.check(got == want, "seen", lambda: f"{show()} saw {str(got)[:900]} instead of {str(want)[:900]}")
        regs = [e for e in self.engine.registers(stack=True)]
        names = [e.req.name for e in regs if e.req.type != "pulumi:pulumi:Stack"]
        stacks = [e.req.name for e in regs if e.req.type == "pulumi:pulumi:Stack"]
        ctx.check(stacks == [f"{self.project}-{self.stack}"], "stack", lambda: f"{show()}: stacks {stacks}")
        ctx.check(len(set(names)) == len(names) and set(names) <= self.names() | {"rejected-" + t}, "registrations", lambda: f"{show()}: {sorted(names)} instead of {sorted(self.names())}")
        if good:
            ctx.check(set(names) == self.names(), "registrations", lambda: f"{show()}: {sorted(names)} instead of {sorted(self.names())}")
            outs = [wire.dec(e.req.outputs) for e in self.engine.by("RegisterResourceOutputs") if "pulumi:pulumi:Stack" in e.req.urn and "$" not in e.req.urn]
            ctx.check(outs == [self.exports], "exports", lambda: f"{show()}: {outs} instead of {self.exports}")
            ctx.check(sorted(i for i, _ in self.callbacks) == list(range(self.rounds)), "callbacks", lambda: f"{show()}: {self.callbacks}")
            if self.function:
                ctx.check(self.answer == {"r": "answer-" + t}, "answer", lambda: f"{show()}: {self.answer}")
        for e in regs:
            if e.req.type == "pulumi:pulumi:Stack":
                continue
            obj = wire.dec(e.req.object)
            if e.req.custom:
                ctx.count("resources")
                ctx.check(obj.get("tag") == t, "inputs", lambda: f"{show()}: {e.req.name} has {str(obj)[:300]}")
                ctx.check(obj.get("mark") == ("mark-" + t if self.transform else None), "transformations", lambda: f"{show()}: {e.req.name} has {str(obj)[:300]}")
            ctx.check(self.stack in e.req.parent and self.project in e.req.parent, "parent", lambda: f"{show()}: {e.req.name} is below {e.req.parent}")
            if e.req.name == "dyn-" + t:
                ctx.count("dynamic")
                self.check_provider(ctx, obj)
        logs = [m.message for _, m in self.engine.logs if m.message.startswith("log-")]
        ctx.check(logs == ["log-" + t], "logs", lambda: f"{show()}: {logs}")

    def check_provider(self, ctx, obj):
        import base64  # pylint: disable=import-outside-toplevel

        import dill  # pylint: disable=import-outside-toplevel

        try:
            text = obj["__provider"]
            p = dill.loads(base64.b64decode(text))
            got = p.create({"tag": 1}).outs
        except Exception as exn:  # pylint: disable=broad-except
            ctx.violation("provider", f"{self.show()}: {exn!r}")
            return
        ctx.check(got == {"got": "state-" + self.tag, "tag": 1}, "provider", lambda: f"{self.show()}: the provider made {got}")
