"""C24: unit tests with mocks see exactly what the mocks return, and the mocks what the program asks for."""
import asyncio
import contextvars
import logging
import threading
import time

import pulumi
from pulumi import CustomResource, ComponentResource, InvokeOptions, Output, ProviderResource, ResourceOptions
from pulumi.runtime import mocks as pm

from pv import values, wire
from pv.wire import Secret

RULE = ("One case = a sequence of 1-4 unit tests in one process, each with its own mocks, project, stack and preview mode and a random program of resources (custom, component, provider, read), function "
        "calls and callbacks, possibly failing; calls received by the mocks, outputs, logs and the test's outcome are compared with a reference model; distinct by program shape, non-trivial "
        "if an input derives from another resource's output.")
ASSUMPTIONS = ["secret inputs reach the mocks with a marker around the value, so they're compared without; values echoed by the mocks keep it", "unknown inputs (of previews) aren't compared",
               "tests run one at a time"]
CASE_TIMEOUT = 120


def plan(tier, seed):
    return [{"i": i} for i in range(2100 if tier == "quick" else 8000)]


def minimum(tier):
    return {"tests": 450, "resources": 1300, "derived": 500, "reads": 100, "components": 200, "calls": 300, "failures": 8, "mock_errors": 30, "callback_errors": 30, "after_failure": 60,
            "secrets": 200, "explicit_provider": 60, "previews": 100, "default_names": 60, "logs": 300, "resource_inputs": 80, "imported": 60, "plain_results": 60, "local_components": 150, "fetched": 60}


class Boom(Exception):
    pass


class M(pm.Mocks):
    def __init__(self, t):
        self.t, self.lock, self.res, self.calls = t, threading.Lock(), [], []

    def new_resource(self, args):
        with self.lock:
            self.res.append((args.typ, args.name, args.inputs, args.provider, args.resource_id, args.custom))
        n = self.t.nodes[args.name]
        if self.t.delay:
            time.sleep(self.t.delay)
        if n.boom:
            raise Boom("boom " + args.name)
        state = dict(args.inputs)
        state.update(values.to_py(n.extra) if n.extra else {})
        return n.id, state

    def call(self, args):
        with self.lock:
            self.calls.append((args.token, args.args, args.provider))
        c = self.t.calls[args.token]
        if c.outcome == "boom":
            raise Boom("boom " + args.token)
        ret = {**args.args, **c.ret}
        if c.outcome == "failures":
            return ret, [("p", "why-" + args.token), ("q", "ü")]
        return {"dict": ret, "none": (ret, None), "empty": (ret, [])}[c.outcome]


class Node:
    pass


class Call:
    pass


def unwrap(v):
    """A value as seen by the mocks, without secret markers."""
    if isinstance(v, dict):
        if v.get(wire.SIG) == wire.SIG_SECRET:
            return unwrap(v["value"])
        return {k: unwrap(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [unwrap(x) for x in v]
    return v


class T:
    """One unit test."""

    def __init__(self, r, tag):
        self.r, self.tag = r, tag
        self.project, self.stack = r.choice([None, "proj-" + tag]), r.choice([None, "stk-" + tag])
        self.preview = r.choice([None, False, False, True])
        self.nodes, self.calls = {}, {}
        self.fail = r.choice([None] * 7 + ["mock", "callback", "raise", "call", "failures", "unknown"])
        self.delay = r.choice([0, 0, 0, 0.002, 0.01])
        self.order = []
        for i in range(r.choice([1, 2, 3, 4, 6])):
            n = Node()
            n.name, n.boom = f"r{i}", False
            earlier = [m for m in self.order if m.kind != "get"]
            usable = [m for m in earlier if m.kind != "local"]  # whose use would be one of its children, too
            n.kind = r.choice(["custom", "custom", "custom", "component", "local", "read", "import", "provider", "get"])
            n.of = r.choice([m for m in earlier if m.kind in ("custom", "import", "read")] or [None]) if n.kind == "get" else None
            if n.kind == "get" and n.of is None:
                n.kind = "custom"
            n.type = "pulumi:providers:pkg" if n.kind == "provider" else r.choice(["pkg:mod:Res", "pkg:mod/sub:Other", "my:index:Comp"])
            comps = [m for m in earlier if m.kind in ("component", "local")]
            n.parent = r.choice(comps) if comps and r.random() < 0.5 and n.kind != "get" else None
            provs = [m for m in earlier if m.kind == "provider"]
            n.provider = r.choice(provs) if provs and n.kind in ("custom", "read", "import") and n.type.startswith("pkg:") and r.random() < 0.7 else None
            n.id = None if n.kind in ("component", "local") else f"id-{tag}-{i}"
            n.inputs = {} if n.kind == "component" and r.random() < 0.5 else {k: self.expr(r, usable) for k in r.sample(["a", "b", "foo_bar", "fooBar", "é", "items"], r.choice([0, 1, 2, 3]))}
            n.extra = {k: values.value(r, 2, False, 0, 0.2) for k in r.sample(["x", "y", "a"], r.choice([0, 1, 2]))}
            if n.kind == "local":
                n.inputs, n.extra = {}, {}
            if n.kind == "get":  # fetched by its URN, with all that the other one has
                n.type, n.id, n.inputs, n.extra = n.of.type, n.of.id, n.of.inputs, n.of.extra
            self.order.append(n)
            self.nodes[n.name] = n
        for i in range(r.choice([0, 0, 1, 2])):
            c = Call()
            c.token = f"pkg:mod:fn{i}"
            c.args = {k: values.value(r, 1, False) for k in r.sample(["a", "b", "fooBar"], r.choice([0, 1, 2]))}
            c.ret = {k: values.value(r, 2, False) for k in r.sample(["x", "b", "foo_bar"], r.choice([0, 1, 2]))}
            c.outcome = r.choice(["dict", "none", "empty"])
            self.calls[c.token] = c
        if self.fail == "mock":
            r.choice([n for n in self.order if n.kind != "get"]).boom = True
        elif self.fail in ("call", "failures"):
            if not self.calls:
                self.fail = "raise"
            else:
                r.choice(list(self.calls.values())).outcome = "boom" if self.fail == "call" else "failures"
        self.res, self.seen, self.rets = {}, {}, {}
        self.messages = []

    def expr(self, r, earlier):
        k = r.choice(["lit", "lit", "secret", "out", "out", "urn", "list", "res"])
        if earlier and k in ("out", "urn", "res", "list"):
            m = r.choice(earlier)
            if k == "out":
                keys = [x for x in {**m.inputs, **m.extra}]
                if keys:
                    return ("out", m.name, r.choice(keys))
                k = "urn"
            if k == "urn":
                return ("urn", m.name)
            if k == "res":
                return ("res", m.name)
            return ("list", [("urn", m.name), ("lit", 1.5), self.expr(r, earlier)])
        if k == "secret":
            return ("secret", values.value(r, 1, False))
        return ("lit", values.value(r, 2, False))

    def build(self, e):
        k = e[0]
        if k == "lit":
            return values.to_py(e[1])
        if k == "secret":
            return Output.secret(values.to_py(e[1]))
        if k == "out":
            return getattr(self.res[e[1]], e[2]) if hasattr(self.res[e[1]], e[2]) else self.res[e[1]].__dict__[e[2]]
        if k == "urn":
            return self.res[e[1]].urn
        if k == "res":
            return self.res[e[1]]
        return [self.build(x) for x in e[1]]

    def urn(self, n):
        if n.kind == "get":
            return self.urn(n.of)
        # The qualified type consists of the parent's type and the own one; the parent is the stack by default.
        if n.kind == "none":
            return ""
        parent = n.parent.type if n.parent else "pulumi:pulumi:Stack"
        return "urn:pulumi:%s::%s::%s$%s::%s" % (self.stack or "stack", self.project or "project", parent, n.type, n.name)

    def ev(self, e):
        """(value, secret) of an expression, as seen by the mocks and by later readers."""
        k = e[0]
        if k in ("lit", "secret"):
            return values.strip_none(e[1]), k == "secret"
        if k == "out":
            return self.out(self.nodes[e[1]], e[2])
        if k == "urn":
            return self.urn(self.nodes[e[1]]), False
        if k == "res":
            n = self.nodes[e[1]]
            return (self.urn(n) if n.id is None else "given-" + n.id if n.kind == "read" else n.id), False
        vs = [self.ev(x) for x in e[1]]
        return [v for v, _ in vs], any(s for _, s in vs)

    def out(self, n, k):
        if k in n.extra:
            v = n.extra[k]
            return values.strip_none(values.unsecret(v)), values.has(v, Secret)
        return self.ev(n.inputs[k])

    def program(self):
        for c in self.calls.values():
            self.rets[c.token] = pulumi.runtime.invoke(c.token, values.to_py(c.args)).value
        for n in self.order:
            opts = ResourceOptions(parent=self.res[n.parent.name] if n.parent else None, provider=self.res[n.provider.name] if n.provider else None)
            props = {**{k: None for k in n.extra}, **{k: self.build(e) for k, e in n.inputs.items()}}
            if n.kind == "component":
                res = ComponentResource(n.type, n.name, props, opts, remote=True)
            elif n.kind == "local":
                res = ComponentResource(n.type, n.name, None, opts)
            elif n.kind == "get":
                continue
            elif n.kind == "provider":
                res = ProviderResource("pkg", n.name, props, opts)
            elif n.kind == "read":
                res = CustomResource(n.type, n.name, props, ResourceOptions.merge(opts, ResourceOptions(id="given-" + n.id)))
            elif n.kind == "import":
                res = CustomResource(n.type, n.name, props, ResourceOptions.merge(opts, ResourceOptions(import_="given-" + n.id)))
            else:
                res = CustomResource(n.type, n.name, props, opts)
            self.res[n.name] = res
        for m in self.r.sample(range(4), 2):
            msg = f"message {self.tag} {m}"
            self.messages.append(msg)
            (pulumi.info, pulumi.log.warn, pulumi.log.error, pulumi.log.debug)[m](msg)
        if self.fail == "raise":
            raise Boom("boom in test")
        if self.fail == "unknown":
            n = self.order[-1]
            CustomResource("pkg:mod:Res", "missing", {}, ResourceOptions(urn=self.r.choice([self.urn(n) + "-missing", "urn:pulumi:stack::project::boom::missing", self.urn(n).replace("::", "::x", 1)])))

        def record(args):
            name, key, v = args
            self.seen[name, key] = v

        async def watch(name, key, out):
            self.seen[name, key] = (await out.future(with_unknowns=True), await out.is_known(), await out.is_secret())

        def watched(n):
            r = self.res[n.name]
            got = {"urn": r.urn, **({} if n.id is None else {"id": r.id}), **{k: r.__dict__[k] for k in {**n.inputs, **n.extra}}}
            for k, o in got.items():
                asyncio.ensure_future(watch(n.name, k, o))
            return Output.all(*got.values())

        def fetch(n, urn):
            self.res[n.name] = CustomResource(n.type, n.name, {k: None for k in {**n.inputs, **n.extra}}, ResourceOptions(urn=urn))
            return watched(n)

        outs = [watched(n) if n.kind != "get" else self.res[n.of.name].urn.apply(lambda urn, n=n: fetch(n, urn)) for n in self.order]
        last = Output.all(*outs)
        if self.fail == "callback":
            def bad(_):
                raise Boom("boom in callback")

            return last.apply(bad)
        return last if self.r.random() < 0.7 else None

    def run(self, ctx):
        mocks, self.logged = M(self), []
        logger = logging.Logger("pv")
        h = logging.Handler()
        h.emit = lambda rec: self.logged.append((rec.levelno, rec.getMessage()))
        logger.addHandler(h)
        kw = {k: v for k, v in (("project", self.project), ("stack", self.stack), ("preview", self.preview)) if v is not None}
        pm.set_mocks(mocks, logger=logger, **kw)
        self.exc = None
        try:
            ret = pulumi.runtime.test(self.program)()
            ctx.check(ret is None, "returned", lambda: f"{ret!r}")
        except Exception as exn:  # pylint: disable=broad-except
            self.exc = exn
        self.mocks = mocks

    def show(self):
        return (f"project={self.project} stack={self.stack} preview={self.preview} fail={self.fail} "
                f"nodes={[(n.kind, n.type, n.name, n.parent and n.parent.name, n.provider and n.provider.name, n.inputs, n.extra, n.boom) for n in self.order]} "
                f"calls={[(c.token, c.outcome, c.args, c.ret) for c in self.calls.values()]}")[:1800]

    def verify(self, ctx, after_failure):
        ctx.evaluated()
        ctx.count("tests")
        ctx.count("after_failure", after_failure)
        ctx.count("previews", bool(self.preview))
        ctx.count("default_names", not self.project and not self.stack)
        derived = [n for n in self.order if any(e[0] not in ("lit", "secret") for e in n.inputs.values())]
        ctx.count("derived", len(derived))
        ctx.sig(" ".join(sorted(n.kind + ",".join(sorted(e[0] for e in n.inputs.values())) for n in self.order)) + str(self.fail))
        # The outcome.
        if self.fail:
            ctx.count({"mock": "mock_errors", "call": "mock_errors", "failures": "failures"}.get(self.fail, "callback_errors"))
            what = "why-" if self.fail == "failures" else "unknown resource" if self.fail == "unknown" else "boom"
            ctx.check(self.exc is not None and what in str(self.exc), "failure-lost", lambda: f"the test ended with {self.exc!r}; {self.show()}")
        else:
            ctx.check(self.exc is None, "failed", lambda: f"the test ended with {self.exc!r}; {self.show()}")
        # What the mocks were asked for.
        names = [x[1] for x in self.mocks.res]
        ctx.check(len(set(names)) == len(names) and set(names) <= set(self.nodes), "mock-calls", lambda: f"resources asked for: {names}; {self.show()}")
        if not self.fail:
            ctx.check(set(names) == {n.name for n in self.order if n.kind != "get"}, "mock-calls", lambda: f"resources asked for: {names}; {self.show()}")
            ctx.check(sorted(t for t, _, _ in self.mocks.calls) == sorted(self.calls), "mock-calls", lambda: f"functions called: {[c[0] for c in self.mocks.calls]}; {self.show()}")
        for typ, name, inputs, provider, rid, custom in self.mocks.res:
            n = self.nodes[name]
            ctx.count("resources")
            ctx.count("reads", n.kind == "read")
            ctx.count("components", n.kind == "component")
            ctx.count("local_components", n.kind == "local")
            ctx.count("imported", n.kind == "import")
            ctx.count("explicit_provider", n.provider is not None)
            ctx.count("resource_inputs", sum(e[0] == "res" for e in n.inputs.values()))
            ctx.check(typ == n.type, "type", lambda: f"{name}: {typ}; {self.show()}")
            want = {k: self.ev(e)[0] for k, e in n.inputs.items()}
            got = unwrap(inputs)
            ctx.check(wire.eq(got, want), "inputs", lambda: f"{name} got inputs {got} instead of {want}; {self.show()}")
            rid_want = "given-" + n.id if n.kind in ("read", "import") else ""
            ctx.check((rid or "") == rid_want, "resource-id", lambda: f"{name}: {rid!r} instead of {rid_want!r}; {self.show()}")
            if n.kind != "read":
                ctx.check(bool(custom) == (n.kind not in ("component", "local")), "custom", lambda: f"{name}: {custom}; {self.show()}")
            p = (provider or "")
            pw = f"{self.urn(n.provider)}::{n.provider.id}" if n.provider else ""
            ctx.check(p == pw, "provider", lambda: f"{name}: provider {p!r} instead of {pw!r}; {self.show()}")
        for tok, args, _ in self.mocks.calls:
            c = self.calls[tok]
            ctx.count("calls")
            ctx.check(wire.eq(args, values.strip_none(c.args)), "call-args", lambda: f"{tok}: {args} instead of {c.args}; {self.show()}")
        for tok, ret in self.rets.items():
            c = self.calls[tok]
            ctx.count("plain_results", c.outcome == "dict")
            want = {**values.strip_none(c.args), **values.strip_none(c.ret)}
            ctx.check(c.outcome in ("dict", "none", "empty") and wire.eq(ret, want), "call-result", lambda: f"{tok} ({c.outcome}) returned {ret}; {self.show()}")
        # Logs.
        if self.messages:
            ctx.count("logs")
            got = [(lv, m) for lv, m in self.logged if m.startswith("message")]
            want = [((logging.INFO, logging.WARNING, logging.ERROR, logging.DEBUG)[int(m[-1])], m) for m in self.messages]
            ctx.check(got == want, "logs", lambda: f"{got} instead of {want}")
        if self.fail:
            return
        # What the program saw.
        for n in self.order:
            want = {"urn": (self.urn(n), False)}
            ctx.count("fetched", n.kind == "get")
            if n.id is not None:
                want["id"] = ("given-" + n.id if n.kind == "read" else n.id, False)
            for k in {**n.inputs, **n.extra}:
                want[k] = self.out(n, k)
            for k, (v, s) in want.items():
                got = self.seen.get((n.name, k))
                ctx.count("secrets", s)
                ctx.check(got is not None and got[1] and got[2] == s and wire.eq(values.from_py(got[0]), v), "output", lambda: f"{n.name}.{k} was {got} instead of {v!r} secret={s}; {self.show()}")


def run(case, ctx):
    r = ctx.rng()
    tests = [T(r, f"{case['i']}{c}") for c in "abcd"[:r.choice([1, 2, 3, 4])]]

    def body():
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        try:
            for t in tests:
                t.run(ctx)
        finally:
            loop.run_until_complete(loop.shutdown_default_executor())
            loop.close()

    box = []

    def guarded():
        try:
            contextvars.Context().run(body)
        except BaseException as exn:  # pylint: disable=broad-except
            box.append(exn)

    th = threading.Thread(target=guarded, daemon=True)
    th.start()
    th.join(20)
    if not ctx.check(not th.is_alive(), "hang", lambda: f"a unit test doesn't finish: {[t.show() for t in tests]}"):
        return
    if box:
        raise box[0]
    bad = False
    for t in tests:
        t.verify(ctx, bad)
        bad = bad or bool(t.fail)
