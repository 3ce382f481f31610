"""C22: a provider sees each request as the engine sent it, in isolation, and its answer is what the provider computed."""
import json
import os
import subprocess
import sys
import threading
import time

import grpc
from pulumi.runtime.proto import plugin_pb2, provider_pb2, provider_pb2_grpc
from google.protobuf import empty_pb2

from pv import grpcsrv, props, values, wire
from pv.engine import Engine, RpcFault
from pv.props import Out
from pv.wire import UNK, OutVal, ResRef, Secret

RULE = ("One case = 1-4 Construct and Call requests, in sequence or concurrently, with their own monitors, settings, configuration and random inputs, to one long-lived provider "
        "process served by pulumi.provider.main; what the provider saw, the registrations at each monitor and each response are compared with a reference model; "
        "distinct by kinds of input and answer, non-trivial if an input is secret, unknown or has dependencies.")
ASSUMPTIONS = ["an input with output values has the union of their dependencies, as sent by the engine; it has no marks of secrets beside output values"]
CASE_TIMEOUT = 180
U = "urn:pulumi:stk::proj::x:y:Z::d%d"


def plan(tier, seed):
    n = 1440 if tier == "quick" else 6000
    return [{"i": i, "concurrent": i % 3 == 0} for i in range(n)]


def minimum(tier):
    return {"constructs": 250, "calls": 100, "secret_inputs": 150, "unknown_inputs": 40, "output_values": 150, "dependent_inputs": 150, "references": 50, "dependent_references": 10, "many_dependencies": 10, "children": 300,
            "late_children": 40, "failures": 50, "after_failure": 40, "concurrent": 120, "state_secrets": 40, "state_dependencies": 80, "with_parent": 80, "with_providers": 100,
            "check_failures": 15, "protected": 60}


class Host:
    def __init__(self, schema):
        self.schema = schema
        self.engine = Engine()
        self.server, addr = grpcsrv.serve(self.engine, 8)
        self.proc = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pv", "provhost.py"), addr] + ["--schema"] * schema,
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        port = self.proc.stdout.readline().decode().strip()
        threading.Thread(target=self.proc.stdout.read, daemon=True).start()
        self.chan = grpc.insecure_channel(f"127.0.0.1:{port}", options=[("grpc.max_receive_message_length", -1), ("grpc.max_send_message_length", -1)])
        self.stub = provider_pb2_grpc.ResourceProviderStub(self.chan)
        self.failed = False

    def stop(self):
        self.proc.kill()
        self.proc.wait()
        self.chan.close()
        self.server.stop(0)


host = None


def tree(r, preview, depth, leaf):
    """A value with some leaves replaced."""
    k = r.random()
    if depth == 0 or k < 0.4:
        return leaf() if r.random() < 0.5 else values.scalar(r, False)
    if k < 0.7:
        return [tree(r, preview, depth - 1, leaf) for _ in range(r.choice([1, 2]))]
    return {k: tree(r, preview, depth - 1, leaf) for k in r.sample(values.KEYS[:8], r.choice([1, 2]))}


def gen_input(r, preview):
    """(term, deps)"""
    kind = r.choice(["plain", "plain", "secret", "outval", "outval", "ref"])
    deps = [U % i for i in range(3 if r.random() < 0.9 else 40) if r.random() < 0.3]
    if kind == "plain":
        return values.value(r, 2, False, 0.15 if preview else 0), deps
    if kind == "secret":
        return values.value(r, 2, False, 0.1 if preview else 0, 0.4), deps
    if kind == "ref":
        urn = f"urn:pulumi:stk::proj::{r.choice(['test', 'test', 'unk'])}:index:R::r{r.randrange(3)}"
        return ResRef(urn, "i-1"), r.choice([[urn], [urn], [urn], [], [urn, U % 0], [U % 1]])
    got = set()

    def leaf():
        ds = tuple(U % i for i in range(4 if r.random() < 0.9 else 30) if r.random() < 0.3)
        got.update(ds)
        known = not preview or r.random() < 0.8
        return OutVal(known, values.value(r, 1, False, 0, 0.15) if known else None, r.random() < 0.3, ds)

    t = tree(r, preview, r.choice([0, 1, 2]), leaf)
    if not values.has(t, OutVal):
        return t, deps
    return t, sorted(got)


def is_ref(t, ds):
    return isinstance(t, ResRef) and "::test:" in t.urn and (not ds or ds == [t.urn])


def model(t, deps):
    """What the program gets for the term, as a runtime value of pv.props."""
    def conv(t):
        if isinstance(t, OutVal):
            return Out(values.strip_none(values.unsecret(t.v)), t.known, t.secret or values.has(t.v, Secret), t.deps) if t.known else Out(UNK, False, t.secret, t.deps)
        if isinstance(t, dict):
            return {k: conv(v) for k, v in t.items() if v is not None}
        if isinstance(t, list):
            return [conv(v) for v in t]
        return t

    if values.has(t, OutVal):
        return conv(t)
    if isinstance(t, ResRef):  # perhaps of no module that is known here
        t = t.id if "::unk:" in t.urn else props.Res(t.urn)
    v = values.strip_none(values.unsecret(t))
    secret = values.has(t, Secret)
    if secret or deps:
        return Out(v, not values.has(v, UNK), secret, deps)
    return v


def run(case, ctx):
    global host
    r = ctx.rng()
    if host is None:
        host = Host(r.random() < 0.5)
    n = r.choice([2, 3, 4]) if case["concurrent"] else r.choice([1, 2, 3])
    reqs = []
    for i in range(n):
        q = Req(ctx, r, case, i)
        q.i, q.n = i, n
        reqs.append(q)
    if case["concurrent"]:
        ts = [threading.Thread(target=q.send, args=(host,)) for q in reqs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    else:
        for q in reqs:
            q.send(host)
    dead = host.proc.poll() is not None
    ctx.check(not dead, "provider-died", lambda: f"the provider process exited: {[q.show() for q in reqs]}")
    try:
        if not dead:
            ctx.check(not any(q.timeout for q in reqs), "hang", lambda: f"no answer within 60 s: {[q.show() for q in reqs if q.timeout]}")
            for q in reqs:
                if not q.timeout:
                    q.verify(host)
                    ctx.count("concurrent", case["concurrent"])
        if case["i"] % 10 == 0 and not dead:
            info = host.stub.GetPluginInfo(empty_pb2.Empty(), timeout=30)
            conf = host.stub.Configure(provider_pb2.ConfigureRequest(), timeout=30)
            schema = host.stub.GetSchema(provider_pb2.GetSchemaRequest(version=0), timeout=30)
            try:
                other = host.stub.GetSchema(provider_pb2.GetSchemaRequest(version=r.choice([1, 2])), timeout=30)
            except grpc.RpcError:
                other = None
            ctx.check(other is None, "schema-version", lambda: f"{other}")
            ctx.check(info.version == "1.2.3-pv" and conf.acceptSecrets and conf.acceptResources and conf.acceptOutputs and schema.schema == ('{"name": "pv"}' if host.schema else "{}"), "plugin-info",
                      lambda: f"{info} {conf} {schema}")
    finally:
        for q in reqs:
            q.server.stop(0)
        if dead or any(q.timeout for q in reqs):
            host.stop()
            host = None


class Req:
    def __init__(self, ctx, r, case, i):
        self.ctx = ctx
        tag = self.tag = f"{case['i']}x{i}"
        preview = self.preview = r.random() < 0.35
        self.kind = r.choice(["construct", "construct", "construct", "call"])
        self.project, self.stack = r.choice(["proj", "other"]), r.choice(["stk", "prod"])
        self.inputs = {k: gen_input(r, preview) for k in r.sample(["a", "b", "fooBar", "foo_bar", "é", "name", "items"], r.choice([0, 1, 2, 3, 4]))}
        if r.random() < 0.01:  # more than gRPC allows for by default
            self.inputs["huge"] = ("h" * 5_000_000, [])
            ctx.count("huge")
        self.config = {k: r.choice(["", "v", "ü"]) for k in ("a", "b", "c") if r.random() < 0.5}
        self.secret_keys = [k for k in self.config if r.random() < 0.4]
        self.fail = r.choice([None] * 12 + ["raise", "raise", "child", "child", "state", "state", "base"])
        ins = list(self.inputs)
        self.children = []
        for j in range(r.choice([0, 1, 2, 3])):
            c = {"name": f"k{tag}_{j}", "type": r.choice(["test:index:Child", "other:index:Child"]), "props": {}}
            for k in r.sample(["x", "y", "fooBar"], r.choice([0, 1, 2])):
                c["props"][k] = self.expr(r, ins)
            early = [d["name"] for d in self.children if not d.get("after")]
            if early and r.random() < 0.3:
                c["after"] = r.choice(early)
            elif early and r.random() < 0.3:
                c["depends"] = [r.choice(early)]
            self.children.append(c)
        if self.fail == "child" and not self.children:
            self.fail = "raise"
        self.bad_child = self.children[0]["name"] if self.fail == "child" else None
        self.outs = {c["name"]: values.value(r, 1, False, 0.2 if preview else 0, 0.2) for c in self.children}
        self.state = {k: self.expr(r, ins) for k in r.sample(["a", "b", "fooBar", "res"], r.choice([0, 1, 2, 3]))}
        if self.fail == "state":
            self.state["z"] = ["boom"]
        self.urn_kind = r.choice(["output", "output", "given"])
        self.outputs = r.random() < 0.4 and self.fail != "state"
        self.failures = r.choice([None, None, [], [["p", "why"]], [["p", "why"], ["q", "ü"]]]) if self.kind == "call" else None
        self.name, self.type = f"c{tag}", "test:index:Comp"
        self.parent = f"urn:pulumi:{self.stack}::{self.project}::my:index:Parent::p" if r.random() < 0.5 else ""
        self.providers = {p: f"urn:pulumi:stk::proj::pulumi:providers:{p}::prov::id-{p}" for p in ("test", "other") if r.random() < 0.4}
        self.protect = r.random() < 0.3
        self.deps = [U % (i + 7) for i in range(2 if r.random() < 0.9 else 40) if r.random() < 0.4] + ([self.parent] if self.parent and r.random() < 0.2 else [])
        self.aliases = [f"urn:pulumi:stk::proj::old:index:Comp::c{j}" for j in range(2) if r.random() < 0.3]
        self.obs = os.path.join(ctx.tmp, f"obs{tag}.json")
        self.eng = Engine(project=self.project, stack=self.stack, preview=preview, on_register=self.on_register,
                          on_invoke=lambda q: ("return", {"urn": dict(q.args.items())["urn"], "id": "i-1", "state": {}}), schedule=r.choice([None, "sleep", "sleep"]), seed=case["i"])
        self.server, self.addr = grpcsrv.serve(self.eng, 8)
        self.timeout, self.error, self.resp = False, None, None
        self.before_failed = False

    def expr(self, r, ins):
        early = [c["name"] for c in self.children if not c.get("after")]
        k = r.choice(["input", "input", "input", "lit", "secret", "child", "list"])
        if k == "input" and ins:
            return ["input", r.choice(ins)]
        if k == "child" and early:
            return ["child", r.choice(early), r.choice(["out", "urn"])]
        if k == "list" and ins:
            return ["list", [["input", r.choice(ins)], ["lit", 1]]]
        if k == "secret":
            return ["secret", r.choice([1, "x", [1, "y"]])]
        return ["lit", values.value(r, 1, False)]

    def show(self):
        return (f"{self.kind} inputs={self.inputs} children={self.children} state={self.state} fail={self.fail} preview={self.preview} outs={self.outs} "
                f"parent={self.parent!r} providers={self.providers}")[:1800]

    def on_register(self, q, urn):
        if q.name == self.bad_child:
            raise RpcFault(grpc.StatusCode.UNKNOWN, "boom in engine")
        if q.name in self.outs:
            return {"object": {"out": self.outs[q.name]}}
        return None

    def send(self, host):
        script = json.dumps({"obs": self.obs, "fail": self.fail, "children": self.children, "state": self.state, "urn": self.urn_kind, "outputs": self.outputs, "failures": self.failures})
        common = {"project": self.project, "stack": self.stack, "config": {"t:script": script, **{"t:" + k: v for k, v in self.config.items()}},
                  "configSecretKeys": ["t:" + k for k in self.secret_keys], "dryRun": self.preview, "parallel": 4, "monitorEndpoint": self.addr}
        args = wire.struct({k: t for k, (t, _) in self.inputs.items()})
        self.before_failed = host.failed
        try:
            if self.kind == "construct":
                req = provider_pb2.ConstructRequest(name=self.name, type=self.type, parent=self.parent, inputs=args, protect=self.protect, providers=self.providers,
                                                    aliases=self.aliases, dependencies=self.deps, **common)
                for k, (_, ds) in self.inputs.items():
                    if ds or len(k) % 2:
                        req.inputDependencies[k].urns.extend(ds)
                self.resp = host.stub.Construct(req, timeout=60)
            else:
                req = provider_pb2.CallRequest(tok=f"test:index:Comp/m{self.tag}", args=args, **common)
                req.args.fields["__self__"].CopyFrom(wire.to_value(wire.enc(ResRef("urn:pulumi:stk::proj::test:index:Comp::me"))))
                for k, (_, ds) in self.inputs.items():
                    if ds:
                        req.argDependencies[k].urns.extend(ds)
                self.resp = host.stub.Call(req, timeout=60)
        except grpc.RpcError as e:
            self.error = e
            self.timeout = e.code() == grpc.StatusCode.DEADLINE_EXCEEDED
            host.failed = True
        self.at_response = {e.req.name for e in self.eng.by("RegisterResource") if e.end is not None}

    def rv(self, e):
        """The runtime value of an expression of the script."""
        k = e[0]
        if k == "input":
            t, ds = self.inputs[e[1]]
            return props.Res(t.urn) if is_ref(t, ds) else model(t, ds)
        if k == "lit":
            return e[1]
        if k == "secret":
            return Out(e[1], True, True)
        if k == "list":
            return [self.rv(x) for x in e[1]]
        urn = self.urns[e[1]]
        if e[2] == "urn":
            return Out(urn, True, False, {urn})
        v = values.strip_none(values.unsecret(self.outs[e[1]]))
        return Out(v, not values.has(v, UNK), values.has(self.outs[e[1]], Secret), {urn})

    def verify(self, host):
        ctx, eng = self.ctx, self.eng
        ctx.evaluated()
        ctx.count("constructs" if self.kind == "construct" else "calls")
        ctx.count("after_failure", self.before_failed)
        regs = {e.req.name: e.req for e in eng.by("RegisterResource")}
        allowed = {c["name"] for c in self.children} | ({self.name} if self.kind == "construct" else set())
        ctx.check(set(regs) <= allowed and len(regs) == len(eng.by("RegisterResource")), "isolation", lambda: f"registered {sorted(regs)} at the monitor of {self.show()}")
        t0 = time.time()
        while not os.path.exists(self.obs) and time.time() - t0 < 20:
            time.sleep(0.01)
        if not ctx.check(os.path.exists(self.obs), "not-served", lambda: f"the provider's method didn't get to see {self.show()}; {self.error}"):
            return
        with open(self.obs) as f:
            seen = json.load(f)
        os.remove(self.obs)
        want = {"project": self.project, "stack": self.stack, "preview": self.preview, "config": {k: self.config.get(k) for k in "abc"}, "secret_keys": sorted(self.secret_keys)}
        ctx.check(seen["env"] == want, "settings", lambda: f"the provider saw {seen['env']} instead of {want}; {self.show()}")
        if self.kind == "construct":
            ctx.check((seen["name"], seen["type"]) == (self.name, self.type), "identity", lambda: f"{seen} {self.show()}")
        else:
            ctx.check(seen["name"].endswith(self.tag), "identity", lambda: f"{seen} {self.show()}")
            me = seen["inputs"].pop("__self__", None)
            ctx.check(me is not None and me.get("resource") == "urn:pulumi:stk::proj::test:index:Comp::me", "self", lambda: f"{me} {self.show()}")
        ctx.check(set(seen["inputs"]) == set(self.inputs), "input-names", lambda: f"{sorted(seen['inputs'])} {self.show()}")
        for k, (t, ds) in self.inputs.items():
            self.verify_input(k, t, ds, seen["inputs"].get(k))
        if self.fail:
            ctx.count("failures")
            ctx.check(self.error is not None, "failure-lost", lambda: f"{self.show()} led to {self.resp}")
            if self.error is not None and self.fail != "child":
                ctx.check(self.error.details() and (self.fail == "base" or "boom" in self.error.details()), "failure-message", lambda: f"{self.error.details()!r} {self.show()}")
            return
        if not ctx.check(self.error is None, "failed", lambda: f"{self.error!r}: {self.show()}"):
            return
        # Nothing waits for what is created within callbacks (which aren't meant to create resources).
        late = {c["name"] for c in self.children if c.get("after")}
        ctx.check(allowed - late <= self.at_response, "answered-early",
                  lambda: f"only {sorted(self.at_response)} registered when answering, of {sorted(allowed)}; {self.show()}")
        self.urns = {c["name"]: eng.urn(c["type"], c["name"], eng.urn(self.type, self.name, self.parent) if self.kind == "construct" else "") for c in self.children}
        world = props.World(frozenset({"secrets", "resourceReferences", "outputValues"}),
                            {t.urn: {"urn": t.urn, "id": t.id, "expand": {t.urn}} for t, _ in self.inputs.values() if isinstance(t, ResRef)})
        comp_urn = eng.urn(self.type, self.name, self.parent) if self.kind == "construct" else ""
        if self.kind == "construct":
            q = regs[self.name]
            ctx.count("with_parent", bool(self.parent))
            ctx.count("protected", self.protect)
            ctx.count("with_providers", bool(self.providers))
            have = {p: (x.get("known"), x.get("secret"), x.get("value")) for p, x in seen["providers"].items()}
            want = {p: (True, False, u.rsplit("::", 1)) for p, u in self.providers.items()}
            ctx.check(have == want, "providers", lambda: f"{have} instead of {want}; {self.show()}")
            got = (q.type, q.parent, q.protect, set(q.dependencies), list(q.aliases), q.custom, q.remote)
            exp = (self.type, self.parent, self.protect, set(self.deps), self.aliases, False, False)
            ctx.check(got[:3] == exp[:3] and got[3] == exp[3] and sorted(got[4]) == sorted(exp[4]) and got[5:] == exp[5:], "options", lambda: f"component {got} instead of {exp}; {self.show()}")
        for c in self.children:
            if c["name"] in late and c["name"] not in regs:
                continue
            q = regs[c["name"]]
            ctx.count("children")
            ctx.count("late_children", bool(c.get("after")))
            prov = self.providers.get(c["type"].split(":")[0], "") if self.kind == "construct" else ""
            got = (q.type, q.parent, q.provider, q.protect)
            exp = (c["type"], comp_urn, prov, self.kind == "construct" and self.protect)
            ctx.check(got == exp, "child", lambda: f"child {got} instead of {exp}; {self.show()}")
            obj, deps = {}, {self.urns[d] for d in c.get("depends", [])}
            for k, e in c["props"].items():
                t, d = world.ser(self.rv(e), False)
                if t is not None:
                    obj[k] = t
                    deps |= d
            term = wire.dec(q.object)
            ctx.check(wire.eq(term, obj), "child-inputs", lambda: f"{c['name']}: {term} instead of {obj}; {self.show()}")
            ctx.check(set(q.dependencies) == deps, "child-dependencies", lambda: f"{c['name']}: {sorted(q.dependencies)} instead of {sorted(deps)}; {self.show()}")
        state, sdeps = {}, {}
        for k, e in self.state.items():
            t, d = world.ser(self.rv(e), False)
            if t is not None:
                state[k] = t
                sdeps[k] = d
                ctx.count("state_secrets", values.has(t, Secret))
                ctx.count("state_dependencies", bool(d))
        resp = self.resp
        if self.kind == "construct":
            want = comp_urn if self.urn_kind == "output" else "urn:given"
            ctx.check(resp.urn == want, "urn", lambda: f"{resp.urn} instead of {want}; {self.show()}")
            got, gdeps = wire.dec(resp.state), resp.stateDependencies
            if self.outputs:
                ev = [e.req for e in eng.by("RegisterResourceOutputs") if e.req.urn == comp_urn]
                ctx.check(len(ev) == 1 and wire.eq(wire.dec(ev[0].outputs), state), "outputs", lambda: f"registered outputs {ev} instead of {state}; {self.show()}")
        else:
            got, gdeps = wire.dec(getattr(resp, "return")), resp.returnDependencies
            ctx.count("check_failures", bool(self.failures))
            ctx.check([[f.property, f.reason] for f in resp.failures] == (self.failures or []), "check-failures", lambda: f"{resp.failures} {self.show()}")
        ctx.check(wire.eq(got, state), "result", lambda: f"{got} instead of {state}; {self.show()}")
        gd = {k: sorted(set(v.urns)) for k, v in gdeps.items() if v.urns}
        wd = {k: sorted(v) for k, v in sdeps.items() if v}
        ctx.check(gd == wd, "result-dependencies", lambda: f"{gd} instead of {wd}; {self.show()}")

    def verify_input(self, k, t, ds, seen):
        ctx = self.ctx
        if seen is None:
            return
        if is_ref(t, ds):
            ctx.count("references")
            ctx.check(seen.get("resource") == t.urn, "reference", lambda: f"{k}={t!r} seen as {seen}; {self.show()}")
            return
        m = model(t, ds)
        o = props.flatten(m)
        deps = set(o.deps)
        ctx.count("secret_inputs", o.secret)
        ctx.count("unknown_inputs", not o.known)
        ctx.count("output_values", values.has(t, OutVal))
        ctx.count("dependent_inputs", bool(deps))
        ctx.count("many_dependencies", len(deps) > 8)
        ctx.check("error" not in seen and (seen.get("known"), seen.get("secret"), set(seen.get("deps", []))) == (o.known, o.secret, deps), "input-flags",
                  lambda: f"{k}={t!r} deps={ds} seen as {seen}, instead of {o!r}; {self.show()}")
        ctx.count("dependent_references", isinstance(o.v, props.Res))
        if o.known:
            ctx.check(seen.get("value") == {"$resource": True} if isinstance(o.v, props.Res) else wire.eq(seen.get("value"), o.v), "input-value", lambda: f"{k}={t!r} seen as {seen}, instead of {o!r}; {self.show()}")
        if o.secret or not o.known or deps:
            ctx.sig((self.kind, values.shape(t), o.secret, o.known, len(deps)))
            ctx.sample({"request": self.show()[:600]})
